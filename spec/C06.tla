-------------------------------- MODULE C06 --------------------------------
(* Construction accepts exactly the simple polygons; validation exactly    *)
(* the counter-clockwise simple / strictly convex ones; errors are true.   *)
EXTENDS TraceKit

CornerTurn(P, i) == Turn(P[Pv(P, i)], P[i], P[Nx(P, i)])
(* an error report that is true of the vertex list *)
TrueError(P, simple, err) ==
  CASE err = "InsufficientVertices" -> Len(P) < 3
    [] err = "DuplicatePoints" -> ~DistinctPts(P)
    [] err = "SelfIntersections" -> Len(P) >= 3 /\ ~simple
    [] err = "ClockWiseViolation" ->
         Len(P) >= 3 /\ IF simple THEN Area2(P) < 0 ELSE \E i \in 1..Len(P) : CornerTurn(P, i) <= 0
    [] err = "CoLinearViolation" -> Len(P) >= 3 /\ ~simple /\ \E i \in 1..Len(P) : CornerTurn(P, i) = 0
    [] err = "ConvexViolation" -> \E i \in 1..Len(P) : CornerTurn(P, i) <= 0
    [] OTHER -> FALSE

ValsOk(P, v, simple, ccw, convex) ==
     /\ IF v.val = "ok" THEN ccw ELSE ~ccw /\ v.val # "ConvexViolation" /\ TrueError(P, simple, v.val)
     /\ v.wval # "skip" /\ DistinctPts(P) =>
          IF v.wval = "ok" THEN ccw ELSE ~ccw /\ v.wval # "ConvexViolation" /\ TrueError(P, simple, v.wval)
     /\ IF v.cval = "ok" THEN convex
        ELSE ~convex /\ (v.cval = "skip" \/ TrueError(P, simple, v.cval))

PolyOk(P, v) ==
  LET simple == IsSimple(P)
      ccw == simple /\ Area2(P) > 0
      convex == Len(P) >= 3 /\ StrictlyConvexCCW(P)
  IN /\ IF v.new = "ok"
        THEN /\ simple
             /\ Len(v.ring) = Len(P)
             /\ SameCycle(v.ring, IF ccw THEN P ELSE Reversed(P))
        ELSE ~simple /\ v.new # "ConvexViolation" /\ TrueError(P, simple, v.new)
     /\ Len(v.vals) >= 1
     \* the verdict may name another fault when the vertices are stored in another order
     /\ \A k \in 1..Len(v.vals) : ValsOk(P, v.vals[k], simple, ccw, convex)

Accept(n, e) ==
  CASE e.op = "poly" -> AllRes(e.g, LAMBDA v : PolyOk(e.ps, v))
    [] e.op = "tri" ->
         LET t == Turn(e.ps[1], e.ps[2], e.ps[3]) IN
         AllRes(e.g, LAMBDA v :
           /\ \A i \in DOMAIN v.new : v.new[i] = IF t = 1 THEN "ok" ELSE "ClockWiseViolation"
           /\ Len(v.ccw) = IF t = 0 THEN 0 ELSE 3
           /\ \A i \in DOMAIN v.ccw : v.ccw[i] = "ok")
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
