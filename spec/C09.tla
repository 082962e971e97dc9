-------------------------------- MODULE C09 --------------------------------
(* Convex hull of a simple polygon: the unique strictly convex hull of its *)
(* vertex set, whatever the starting vertex or internal vertex order.      *)
EXTENDS TraceKit

HullOk(P, v) == /\ v.val = "ok"
                /\ v.stored = Len(v.ring)
                /\ IsHullOf(v.ring, RangeOf(P))
Accept(n, e) ==
  CASE e.op = "melk" ->
         /\ IsSimpleCCW(e.ps) \/ GenError(n, "not simple")
         /\ AllRes(e.g, LAMBDA v : Len(v) >= 1 /\ \A i \in DOMAIN v : HullOk(e.ps, v[i]))
    [] e.op = "melk2" -> \* the polygon fed to it was itself made by untangling
         AllRes(e.g, LAMBDA v :
           Len(v.in) > 0 =>
             /\ IsSimpleCCW(v.in) \/ GenError(n, "not simple")
             /\ Len(v.out) >= 1 /\ \A i \in DOMAIN v.out : HullOk(v.in, v.out[i]))
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
