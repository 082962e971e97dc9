-------------------------------- MODULE C11 --------------------------------
(* Untangling: final polygon, rejected inputs, and every intermediate tour *)
EXTENDS TraceKit, TwoOpt

TwoOk(ps, v) ==
  LET dup == ~DistinctPts(ps)
      few == Len(ps) < 3
      flat == ~few /\ AllColinear(RangeOf(ps))
  IN CASE v.st = "ok" ->
            /\ ~dup /\ ~few /\ ~flat
            /\ Len(v.ring) = Len(ps)
            /\ RangeOf(v.ring) = RangeOf(ps)
            /\ IsSimpleCCW(v.ring)
            /\ v.same
       [] v.st = "DuplicatePoints" -> dup
       [] v.st = "InsufficientVertices" -> few \/ flat
       [] v.st = "CoLinearViolation" -> flat
       [] OTHER -> FALSE

E == Trace[ln]
Steps == IF E.op = "tours" /\ E.nsteps > 0 THEN E.nsteps ELSE 1
Tour(k) == E.tours[k]
StepOk ==
  CASE E.op = "two" -> AllRes(E.g, LAMBDA v : TwoOk(E.ps, v))
    [] E.op = "tours" ->
         /\ E.nsteps > 0 /\ E.ok
         /\ Len(Tour(pc + 1)) = Len(E.ps) /\ RangeOf(Tour(pc + 1)) = RangeOf(E.ps)
         /\ IF pc = 0 THEN Edges(Tour(1)) = Edges(E.ps)
            ELSE \/ Shortens(Tour(pc), Tour(pc + 1))
                 \/ pc + 1 = E.nsteps /\ Edges(Tour(pc)) = Edges(Tour(pc + 1)) \* final reversal
         /\ pc + 1 = E.nsteps => IsSimpleCCW(Tour(pc + 1))
    [] OTHER -> FALSE
Step == /\ pc >= 0 /\ pc < Steps
        /\ pc' = IF StepOk THEN pc + 1 ELSE IF Reject(ln, pc + 1, E.op) THEN -1 ELSE -1
        /\ UNCHANGED ln
Spec == InitLine /\ [][Step]_<<ln, pc>>
=============================================================================
