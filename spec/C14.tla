-------------------------------- MODULE C14 --------------------------------
(* Monotone test (unimodal projections) and monotone construction.         *)
EXTENDS TraceKit

NewOk(ps, d, v) ==
  LET S == RangeOf(ps) IN
  IF Cardinality(S) < 3 THEN v.st = "InsufficientVertices"
  ELSE IF AllColinear(S) THEN v.st # "ok"
  ELSE /\ v.st = "ok"
       /\ DistinctPts(v.ring)
       /\ RangeOf(v.ring) = S
       /\ IsSimpleCCW(v.ring)
       /\ IsMonotone(v.ring, d)
       /\ v.mono
Accept(n, e) ==
  CASE e.op = "is" -> \* answers for a list of directions
         LET row == [j \in 1..Len(e.ds) |-> IsMonotone(e.ps, e.ds[j])] IN
         /\ (IsSimpleCCW(e.ps) /\ \A j \in DOMAIN row : ~IsZero(e.ds[j])) \/ GenError(n, "is")
         /\ AllRes(e.g, LAMBDA v : v = row)
    [] e.op = "new" ->
         /\ ~IsZero(e.d) \/ GenError(n, "new")
         /\ AllRes(e.g, LAMBDA v : NewOk(e.ps, e.d, v))
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
