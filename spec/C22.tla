-------------------------------- MODULE C22 --------------------------------
EXTENDS TraceKit, Work
Accept(n, e) == /\ e.r.st = "ok"
                /\ e.r.v.pred >= 0 /\ e.r.v.cmp >= 0
                /\ e.r.v.pred + e.r.v.cmp <= WorkBound(e.op, e.n, e.r.v.h)
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
