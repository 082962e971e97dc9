---------------------------- MODULE SessionModel ----------------------------
(***************************************************************************)
(* All histories over the polygons of a small grid.  A tour of a point set *)
(* is drawn vertex by vertex (phase "draw": any simple tour may result),   *)
(* then operations apply until the points are connected anew.              *)
(***************************************************************************)
EXTENDS Session, TLC
CONSTANTS W, H, MaxN, D
VARIABLES path, only, phase, last
vars == <<path, only, phase, last>>
Grid == (0..(W - 1)) \X (0..(H - 1))
Least(S) == CHOOSE p \in S : \A q \in S : LexLeq(p, q)
Canon(P) == Rotate(P, (CHOOSE i \in 1..Len(P) : P[i] = Least(RangeOf(P))) - 1)
Dirs == (((-D)..D) \X ((-D)..D)) \ {<<0, 0>>}

Init == /\ only \in {S \in SUBSET Grid : Cardinality(S) \in 3..MaxN /\ ~AllColinear(S)}
        /\ path = <<Least(only)>> /\ phase = "draw" /\ last = "none"
Free(v) ==
  LET n == Len(path) IN
  \A i \in 1..(n - 1) :
    IF i = n - 1 THEN ~Meets(path[i], TRUE, path[n], TRUE, path[n], FALSE, v, TRUE)
    ELSE ~MeetsClosed(path[i], path[i + 1], path[n], v)
Draw == /\ phase = "draw" /\ Len(path) < Cardinality(only)
        /\ \E v \in only : v \notin RangeOf(path) /\ Free(v) /\ path' = Append(path, v)
        /\ UNCHANGED <<only, phase, last>>
Finish == /\ phase = "draw" /\ Len(path) = Cardinality(only) /\ IsSimpleCCW(path)
          /\ phase' = "work" /\ last' = "draw" /\ UNCHANGED <<path, only>>
Result(Q, op) == path' = Canon(Q) /\ only' = RangeOf(Q) /\ last' = op /\ UNCHANGED phase
Work == phase = "work"
(* the hull of a point set is unique: the extreme points in angular order  *)
Extreme(S) == {p \in S : \E a \in S \ {p} : (\A q \in S : Det(p, a, q) >= 0)
                                       /\ \A q \in S : (Det(p, a, q) = 0) => Dot(Sub(a, p), Sub(q, p)) >= 0}
RECURSIVE HullFrom(_, _, _)
HullFrom(X, p, acc) ==
  LET nxt == CHOOSE a \in X \ {p} : \A q \in X : Det(p, a, q) >= 0
  IN IF nxt = acc[1] THEN acc ELSE HullFrom(X, nxt, Append(acc, nxt))
HullOf(S) == LET X == Extreme(S) IN HullFrom(X, Least(X), <<Least(X)>>)
DoHull == Work /\ Result(HullOf(RangeOf(path)), "hull")
(* mirrored inside the grid *)
DoMirror == Work /\ Result(Reversed(MapPts(LAMBDA p : <<W - 1 - p[1], p[2]>>, path)), "mirror")
DoTurn == Work /\ Result(MapPts(LAMBDA p : <<W - 1 - p[1], H - 1 - p[2]>>, path), "turn")
DoCut == Work /\ Len(path) > 3 /\ \E k \in 1..Len(path) : IsEar(path, k) /\ Result(Drop(path, k), "cut")
DoRetour == /\ Work /\ phase' = "draw" /\ path' = <<Least(only)>> /\ last' = "retour" /\ UNCHANGED only
Next == Draw \/ Finish \/ DoHull \/ DoMirror \/ DoTurn \/ DoCut \/ DoRetour
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Valid == Work => IsSimpleCCW(path)
HullRight == Work => Hull(path, HullOf(RangeOf(path)))
(* the hull is a fixed point; when every point is extreme it is the only tour *)
Convex == Work /\ StrictlyConvexCCW(path)
Unique == Work => (Convex <=> SameCycle(path, HullOf(RangeOf(path))))
(* some ear can be cut from whatever an operation produced *)
CanCut == (Work /\ Len(path) > 3) => \E k \in 1..Len(path) : IsEar(path, k)
(* areas: a hull never shrinks, a cut always shrinks, mirrors keep it      *)
Areas == [][(phase = "work" /\ phase' = "work") =>
   CASE last' = "hull" -> Area2(path') >= Area2(path)
     [] last' = "cut" -> Area2(path') < Area2(path)
     [] OTHER -> Area2(path') = Area2(path)]_vars
(* location follows: what a cut removes lies in the ear, a hull only adds  *)
Regions == [][(phase = "work" /\ phase' = "work" /\ last' \in {"hull", "cut"}) =>
   \A q \in Grid :
     IF last' = "hull" THEN Locate(path, q) # "outside" => Locate(path', q) # "outside"
     ELSE Locate(path', q) = "inside" => Locate(path, q) = "inside"]_vars
(* monotone along d before turning means monotone along -d, and along d    *)
Turned == Work => \A d \in Dirs : IsMonotone(path, d) = IsMonotone(MapPts(LAMBDA p : <<-p[1], -p[2]>>, path), d)
=============================================================================
