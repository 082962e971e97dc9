-------------------------------- MODULE C16 --------------------------------
(* Visibility polygon against the wedge-by-wedge definition.               *)
EXTENDS TraceKit, Visible

Trip(out) == [k \in DOMAIN out |-> <<out[k][1], out[k][2], out[k][3]>>]
Accept(n, e) ==
  CASE e.op = "in" ->
         /\ (IsSimpleCCW(e.ps) /\ Locate(e.ps, e.c) = "inside") \/ GenError(n, "in")
         /\ \E B \in {VisBoundary(e.ps, e.c)} :
              LET want(out) == LET kept == SelectSeq(B, LAMBDA b : b.must \/ b.p \in RangeOf(out))
                               IN SameCycle([k \in DOMAIN kept |-> kept[k].p], out)
              IN AllRes(e.g, LAMBDA v : v.st = "some" /\ v.valid /\ want(Trip(v.out)))
    [] e.op = "out" ->
         /\ (IsSimpleCCW(e.ps) /\ StrictlyOutsideHull(RangeOf(e.ps), e.c)) \/ GenError(n, "out")
         /\ AllRes(e.g, LAMBDA v : v.st = "none")
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
