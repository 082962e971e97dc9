-------------------------------- MODULE C03 --------------------------------
(* Angular order around a centre from a start direction, and order along a *)
(* direction.                                                              *)
EXTENDS TraceKit, BigArith

AllEq(s, x) == \A i \in DOMAIN s : s[i] = x
Row(d, p, q, r, v) ==
  /\ Len(v[1]) = 4 /\ AllEq(v[1], AngCmp(d, Sub(q, p), Sub(r, p)))
  /\ AllEq(v[2], AngCmp(<<1, 0>>, Sub(q, p), Sub(r, p)))
  /\ AllEq(v[3], Sgn(Dot(d, q) - Dot(d, r)))
BigRow(d, p, q, r, v) ==
  /\ Len(v[1]) = 4 /\ AllEq(v[1], BAngCmp(d, BVec(p, q), BVec(p, r)))
  /\ Len(v[2]) = 4 /\ AllEq(v[2], BAngCmp(<<BOf(1), BZero>>, BVec(p, q), BVec(p, r)))
  /\ Len(v[3]) = 2 /\ AllEq(v[3], BCmp(BDot(d, q), BDot(d, r)))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SortedAround(s) == \A i \in 1..(Len(s) - 1) : AngCmp(<<1, 0>>, s[i], s[i + 1]) <= 0

Accept(n, e) ==
  CASE e.op = "ang" ->
         AllRes(e.g, LAMBDA v : /\ Len(v) = Len(e.rs)
                                /\ \A j \in 1..Len(v) : Row(e.d, e.p, e.q, e.rs[j], v[j]))
    [] e.op = "big" ->
         /\ (\A i \in 1..8 : BFits(e.c[i])) \/ GenError(n, "too big")
         /\ e.res.st = "ok"
         /\ BigRow(<<e.c[7], e.c[8]>>, <<e.c[1], e.c[2]>>, <<e.c[3], e.c[4]>>, <<e.c[5], e.c[6]>>, e.res.v)
    [] e.op = "sort" ->
         AllRes(e.g, LAMBDA v :
           \/ Len(v) = 0   \* nothing to sort / embedding that turns the x axis
           \/ /\ Len(v) = Len(e.vs)
              /\ \A x \in RangeOf(e.vs) : Count(v, x) = Count(e.vs, x)
              /\ SortedAround(v))
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
