---------------------------- MODULE MonotoneImpl ----------------------------
(***************************************************************************)
(* Monotone polygons, two machines.                                        *)
(*  decide: every simple polygon of a grid grows (PolyGen); the two walks  *)
(*    between the least and the greatest vertex along a direction (ties by *)
(*    coordinates) decide monotonicity.                                    *)
(*  build: every set of points and direction; the sorted points are taken  *)
(*    from the top and pushed to one of the two ends of a double ended     *)
(*    queue, by their side of the line through the extremes.               *)
(***************************************************************************)
EXTENDS PolyGen, SequencesExt
CONSTANTS Mode, D
VARIABLES dir, todo, deq
vars == <<path, dir, todo, deq>>
Dirs == (((-D)..D) \X ((-D)..D)) \ {<<0, 0>>}
LessAlong(d, p, q) == Dot(d, p) < Dot(d, q) \/ (Dot(d, p) = Dot(d, q) /\ LexLess(p, q))

(* decide *)
DecideInit == Mode = "decide" /\ Init /\ dir \in Dirs /\ todo = <<>> /\ deq = <<>>
Top(P, d) == CHOOSE i \in 1..Len(P) : \A j \in 1..Len(P) : j = i \/ LessAlong(d, P[j], P[i])
Bot(P, d) == CHOOSE i \in 1..Len(P) : \A j \in 1..Len(P) : j = i \/ LessAlong(d, P[i], P[j])
(* positions from i up to, not including, j; the whole ring never occurs   *)
Walk(P, i, j) == {k \in 1..Len(P) : ((k - i) % Len(P)) < ((j - i) % Len(P))}
TwoWalks(P, d) ==
  /\ \A k \in Walk(P, Bot(P, d), Top(P, d)) : Dot(d, P[k]) <= Dot(d, P[Nx(P, k)])
  /\ \A k \in Walk(P, Top(P, d), Bot(P, d)) : Dot(d, P[k]) >= Dot(d, P[Nx(P, k)])
(* the declarative notion once more, by rays: every line across the        *)
(* direction meets the boundary in at most two runs                        *)
Cross(P, d, c) == {k \in 1..Len(P) : Dot(d, P[k]) < c /\ Dot(d, P[Nx(P, k)]) >= c}
FewCrossings(P, d) == \A i \in 1..Len(P) : Cardinality(Cross(P, d, Dot(d, P[i]))) <= 1
DecideNext == Mode = "decide" /\ Extend /\ UNCHANGED <<dir, todo, deq>>
Decided == (Mode = "decide" /\ Closed) =>
  /\ TwoWalks(path, dir) = IsMonotone(path, dir)
  /\ IsMonotone(path, dir) = IsMonotone(Reversed(path), Neg(dir))
  /\ IsMonotone(path, dir) => FewCrossings(path, dir)
  /\ StrictlyConvexCCW(path) => IsMonotone(path, dir)

(* build *)
Sorted(S, d) == SetToSortSeq(S, LAMBDA p, q : LessAlong(d, p, q))
BuildInit ==
  /\ Mode = "build"
  /\ \E S \in SUBSET Grid : Cardinality(S) \in 3..MaxN /\ dir \in Dirs /\ path = Sorted(S, dir)
  /\ todo = path /\ deq = <<>>
Lo == path[1]
Hi == path[Len(path)]
LineIsChain == \A i \in DOMAIN path : Turn(Lo, Hi, path[i]) # -1
Push ==
  /\ Mode = "build" /\ todo # <<>>
  /\ LET c == todo[Len(todo)] t == Turn(Lo, Hi, c)
         front == t = -1 \/ (t = 0 /\ LineIsChain /\ c # Lo /\ c # Hi)
     IN deq' = IF front THEN <<c>> \o deq ELSE Append(deq, c)
  /\ todo' = SubSeq(todo, 1, Len(todo) - 1)
  /\ UNCHANGED <<path, dir>>
Ring == IF Area2(deq) < 0 THEN Reversed(deq) ELSE deq
Built == (Mode = "build" /\ todo = <<>>) =>
  IF AllColinear(RangeOf(path)) THEN ~IsSimple(deq)
  ELSE /\ IsSimpleCCW(Ring)
       /\ RangeOf(Ring) = RangeOf(path) /\ Len(Ring) = Len(path)
       /\ IsMonotone(Ring, dir)
       /\ Area2(deq) > 0   \* already counter-clockwise
(* while building: the queue falls towards both ends *)
Falling == (Mode = "build" /\ deq # <<>>) =>
  \E m \in 1..Len(deq) :
    /\ deq[m] = Hi
    /\ \A i \in 1..(m - 1) : LessAlong(dir, deq[i], deq[i + 1])
    /\ \A i \in m..(Len(deq) - 1) : LessAlong(dir, deq[i + 1], deq[i])

MInit == DecideInit \/ BuildInit
MNext == DecideNext \/ Push
MSpec == MInit /\ [][MNext]_vars
=============================================================================
