-------------------------------- MODULE C15 --------------------------------
(* Star-shaped construction.                                               *)
EXTENDS TraceKit

(* the centre sees everything: conditions under which it must succeed      *)
MustWork(ps, c) ==
  /\ Len(ps) >= 3
  /\ \A i \in DOMAIN ps : ps[i] # c
  /\ \A i, j \in DOMAIN ps : i < j => ~SameDir(Sub(ps[i], c), Sub(ps[j], c))
  /\ StrictlyInsideHull(RangeOf(ps), c)
StarShaped(P, c) == \A i \in 1..Len(P) : Det(c, P[i], P[Nx(P, i)]) > 0
StarOk(ps, c, must, v) ==
  IF v.st = "ok"
  THEN /\ Len(v.ring) = Len(ps)
       /\ RangeOf(v.ring) = RangeOf(ps)
       /\ IsSimpleCCW(v.ring)
       /\ must => StarShaped(v.ring, c)
  ELSE ~must /\ v.st \in {"InsufficientVertices", "SelfIntersections", "DuplicatePoints", "ClockWiseViolation", "CoLinearViolation"}
Accept(n, e) ==
  CASE e.op = "star" -> \E must \in {MustWork(e.ps, e.c)} : AllRes(e.g, LAMBDA v : StarOk(e.ps, e.c, must, v))
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
