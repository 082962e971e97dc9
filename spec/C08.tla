-------------------------------- MODULE C08 --------------------------------
(* Convex hull of a point list, by the separation definition.              *)
EXTENDS TraceKit

HasHull(S) == Cardinality(S) >= 3 /\ ~AllColinear(S)
(* enough points to decide colinearity: relative to two distinct ones      *)
FlatFast(S) ==
  \/ Cardinality(S) <= 2
  \/ LET a == CHOOSE p \in S : TRUE
         b == CHOOSE p \in S : p # a
     IN \A c \in S : Det(a, b, c) = 0

HullOk(P, v, flat) ==
  IF flat THEN v.st = "InsufficientVertices"
  ELSE /\ v.st = "ok"
       /\ IsHullOf(v.ring, RangeOf(P))
       /\ v.stored = Len(v.ring)
       /\ v.val = "ok"
Accept(n, e) ==
  CASE e.op = "hull" ->
         LET flat == FlatFast(RangeOf(e.ps)) IN
         /\ (Len(e.ps) <= 5 => flat = ~HasHull(RangeOf(e.ps))) \/ GenError(n, "flat")
         /\ AllRes(e.g, LAMBDA v : HullOk(e.ps, v, flat))
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
