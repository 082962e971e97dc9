------------------------------ MODULE C05 --------------------------------
(* A line (origin o, direction d) or half-line from o against a segment    *)
(* a b, in perturbed ("simulation of simplicity") form, and the common     *)
(* point of two lines.                                                     *)
EXTENDS TraceKit, BigArith, RaySegment

AllEq(s, x) == \A i \in DOMAIN s : s[i] = x
Row(o, d, a, b, v) ==
  /\ Len(v[1]) = 5 /\ AllEq(v[1], B2I(LineCross(o, d, a, b)))
  /\ Len(v[2]) = 7 /\ AllEq(v[2], HalfCross(o, d, a, b))

BPt(c, i) == <<c[2 * i - 1], c[2 * i]>>
Accept(n, e) ==
  CASE e.op = "cross" ->
         AllRes(e.g, LAMBDA v :
           /\ Len(v) = Len(e.bs)
           /\ \A j \in 1..Len(v) :
                /\ IsZero(e.d) \/ Row(e.o, e.d, e.a, e.bs[j], v[j][1])
                /\ e.o = e.d \/ Row(e.o, Sub(e.d, e.o), e.a, e.bs[j], v[j][2]))
    [] e.op = "lines" ->
         LET p == BPt(e.c, 1) q == BPt(e.c, 2) s == BPt(e.c, 3) t == BPt(e.c, 4) IN
         /\ (\A i \in DOMAIN e.c : BFits(e.c[i])) \/ GenError(n, "too big")
         /\ e.res.st = "ok"
         /\ e.res.v = (BSgn(BCrs(BVec(p, q), BVec(s, t))) # 0)
         /\ e.res.v => /\ BTurn(p, q, BPt(e.c, 5)) = 0
                       /\ BTurn(s, t, BPt(e.c, 5)) = 0
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
