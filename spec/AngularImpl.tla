---------------------------- MODULE AngularImpl ----------------------------
(***************************************************************************)
(* The case analysis behind the angular order, as a walk: two vectors are  *)
(* compared from every start direction, the start direction swept through  *)
(* the grid.  The analysis uses two turns along the direction, at most two *)
(* turns across it and one turn of the two points.                         *)
(*  - it computes AngCmp, the order of half planes and cross products;      *)
(*  - AngCmp is a total preorder whose classes are the rays;               *)
(*  - it is the cyclic order of directions cut open at the start: rotating *)
(*    all three vectors changes nothing, and moving the start direction    *)
(*    over no vector changes nothing.                                      *)
(***************************************************************************)
EXTENDS Geom
CONSTANT R
VARIABLES d, u, v
vars == <<d, u, v>>
Vec == ((-R)..R) \X ((-R)..R)
Dirs == Vec \ {<<0, 0>>}
O == <<0, 0>>

Along(q) == Sgn(Crs(d, q))
Across(q) == Sgn(Crs(Perp(d), q))   \* 1: behind, -1: in front
OnZero(q) == Across(q) # 1
Impl(q, r) ==
  LET aq == Along(q) ar == Along(r) cmp == -Turn(O, q, r) IN
  CASE aq = 1 /\ ar = -1 -> -1
    [] aq = -1 /\ ar = 1 -> 1
    [] aq = 0 /\ ar = -1 -> -1
    [] aq = -1 /\ ar = 0 -> 1
    [] aq = 1 /\ ar = 1 -> cmp
    [] aq = -1 /\ ar = -1 -> cmp
    [] aq = 1 /\ ar = 0 -> IF OnZero(r) THEN 1 ELSE -1
    [] aq = 0 /\ ar = 1 -> IF OnZero(q) THEN -1 ELSE 1
    [] aq = 0 /\ ar = 0 -> IF OnZero(q) = OnZero(r) THEN 0 ELSE IF OnZero(q) THEN -1 ELSE 1

Init == d \in Dirs /\ u \in Vec /\ v = O
Pick == v' \in Vec /\ UNCHANGED <<d, u>>
Spec == Init /\ [][Pick]_vars
-----------------------------------------------------------------------------
Same == Impl(u, v) = AngCmp(d, u, v)
Anti == AngCmp(d, u, v) = -AngCmp(d, v, u)
(* transitive, and ties go with ties *)
Trans == \A w \in Vec :
  /\ (AngCmp(d, u, v) <= 0 /\ AngCmp(d, v, w) <= 0) => AngCmp(d, u, w) <= 0
  /\ (AngCmp(d, u, v) = 0) => AngCmp(d, u, w) = AngCmp(d, v, w)
(* classes are rays; the start direction and the centre come first *)
Rays == AngCmp(d, u, v) = 0 <=>
  \/ SameDir(u, v)
  \/ (IsZero(u) \/ SameDir(u, d)) /\ (IsZero(v) \/ SameDir(v, d))
First == AngCmp(d, d, v) <= 0 /\ AngCmp(d, O, v) <= 0
(* u lies strictly between d and v, counter-clockwise: an independent      *)
(* definition by the signs of the three cross products                     *)
Left(a, b) == Crs(a, b) > 0
Opp(a, b) == Crs(a, b) = 0 /\ Dot(a, b) < 0
Half(a, b) == Left(a, b) \/ Opp(a, b)        \* angle in (0, pi]
Between(a, m, b) ==   \* m in the open sector counter-clockwise from a to b
  /\ ~SameDir(a, m) /\ ~SameDir(m, b)
  /\ IF SameDir(a, b) THEN TRUE
     ELSE IF Half(a, b) THEN Left(a, m) /\ Left(m, b)
     ELSE ~(Half(b, m) /\ Left(m, a))
Cyclic == (~IsZero(u) /\ ~IsZero(v) /\ ~SameDir(v, d)) =>
  (AngCmp(d, u, v) < 0 <=> SameDir(u, d) \/ Between(d, u, v))
(* exactly one of the two opens of a cycle *)
Quarter == AngCmp(Perp(d), Perp(u), Perp(v)) = AngCmp(d, u, v)
(* the start direction moves to e without passing u or v: no change *)
Cut == \A e \in Dirs :
  (/\ ~IsZero(u) /\ ~IsZero(v) /\ ~SameDir(d, e)
   /\ ~SameDir(d, u) /\ ~SameDir(d, v) /\ ~SameDir(e, u) /\ ~SameDir(e, v)
   /\ ~Between(d, u, e) /\ ~Between(d, v, e)) =>
  AngCmp(e, u, v) = AngCmp(d, u, v)
(* order along a direction: turn across it from one point to the other *)
CmpAlong(p, q) == LET t == Sgn(Crs(Perp(d), Sub(q, p))) IN IF t = 1 THEN 1 ELSE IF t = -1 THEN -1 ELSE 0
AlongOk == CmpAlong(u, v) = Sgn(Dot(d, u) - Dot(d, v))
=============================================================================
