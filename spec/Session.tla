------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Histories of operations on one polygon.  The abstract state is the      *)
(* boundary P, a simple counter-clockwise cycle of points.  Each relation  *)
(* says which boundaries Q an operation may lead to.                       *)
(***************************************************************************)
EXTENDS Geom
MapPts(f(_), P) == [i \in 1..Len(P) |-> f(P[i])]
Drop(P, k) == SubSeq(P, 1, k - 1) \o SubSeq(P, k + 1, Len(P))

Keep(P, Q) == SameCycle(P, Q)
(* x -> k x + d; a negative k turns by half a revolution                   *)
Moved(P, k, d) == MapPts(LAMBDA p : Add(Scale(k, p), d), P)
Move(P, k, d, Q) == SameCycle(Moved(P, k, d), Q)
(* mirrored in the y axis: the boundary direction flips                    *)
Mirrored(P) == MapPts(LAMBDA p : <<-p[1], p[2]>>, P)
Mirror(P, Q) == SameCycle(Reversed(Mirrored(P)), Q)
(* connected anew: any simple tour of the same points                      *)
Retour(S, Q) == Len(Q) = Cardinality(S) /\ RangeOf(Q) = S /\ IsSimpleCCW(Q)
(* a simple tour leaves untangling nothing to do                           *)
Untangled(P, Q) ==
  IF IsSimple(P) THEN SameCycle(Q, IF Area2(P) > 0 THEN P ELSE Reversed(P))
  ELSE Retour(RangeOf(P), Q)
Hull(P, Q) == IsHullOf(Q, RangeOf(P))
StarMust(S, c) ==
  /\ c \notin S
  /\ \A p, q \in S : p # q => ~SameDir(Sub(p, c), Sub(q, c))
  /\ StrictlyInsideHull(S, c)
StarShaped(P, c) == \A i \in 1..Len(P) : Det(c, P[i], P[Nx(P, i)]) > 0
Star(P, c, ok, Q) ==
  IF ok THEN Retour(RangeOf(P), Q) /\ (StarMust(RangeOf(P), c) => StarShaped(Q, c))
  ELSE ~StarMust(RangeOf(P), c) /\ Keep(P, Q)
Mono(P, d, Q) == Retour(RangeOf(P), Q) /\ IsMonotone(Q, d)
(* an ear is cut off *)
Cut(P, k, Q) == Len(P) > 3 /\ IsEar(P, k) /\ SameCycle(Drop(P, k), Q)
=============================================================================
