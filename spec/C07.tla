-------------------------------- MODULE C07 --------------------------------
(* Point location: winding number for polygons, edge half-planes for       *)
(* strictly convex ones (and the two definitions agree).                   *)
EXTENDS TraceKit

Code(P, q) == CASE Locate(P, q) = "outside" -> 0
                [] Locate(P, q) = "boundary" -> 1
                [] OTHER -> 2
ConvexCode(P, q) ==
  LET side == {Turn(P[i], P[Nx(P, i)], q) : i \in 1..Len(P)}
  IN IF -1 \in side THEN 0 ELSE IF 0 \in side THEN 1 ELSE 2

Rows(v, row) == Len(v) >= 1 /\ \A i \in DOMAIN v : v[i] = row
Accept(n, e) ==
  CASE e.op = "loc" ->
         LET row == [j \in 1..Len(e.qs) |-> Code(e.ps, e.qs[j])] IN
         /\ IsSimpleCCW(e.ps) \/ GenError(n, "not simple")
         /\ AllRes(e.g, LAMBDA v : Rows(v, row))
    [] e.op = "cvx" ->
         LET row == [j \in 1..Len(e.qs) |-> ConvexCode(e.ps, e.qs[j])] IN
         /\ (StrictlyConvexCCW(e.ps) /\ \A j \in DOMAIN row : row[j] = Code(e.ps, e.qs[j]))
            \/ GenError(n, "not convex")
         /\ AllRes(e.g, LAMBDA v : Rows(v, row))
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
