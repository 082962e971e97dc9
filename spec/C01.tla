-------------------------------- MODULE C01 --------------------------------
(* The turn of three points / a point, a direction and a point is the sign *)
(* of the exact cross product, for every scalar type and entry point.      *)
EXTENDS TraceKit, BigArith

AllEq(s, x) == \A i \in DOMAIN s : s[i] = x
(* the three cyclic corners of the triangle p q r turn the same way, hence *)
(* all orientation entry points (cursors included) report one value        *)
Row(p, q, r, v) ==
  /\ Len(v[1]) >= 8 /\ AllEq(v[1], Turn(p, q, r))
  /\ Len(v[2]) = 4 /\ AllEq(v[2], Sgn(Crs(q, Sub(r, p))))
  /\ AllEq(v[3], Sgn(Crs(Perp(q), Sub(r, p))))
BigRow(p, q, d, r, v) ==
  /\ Len(v[1]) >= 8 /\ AllEq(v[1], BTurn(p, q, r))
  /\ Len(v[2]) = 4 /\ AllEq(v[2], BSgn(BCrs(d, BVec(p, r))))
  /\ Len(v[3]) = 3 /\ AllEq(v[3], BSgn(BCrs(BPerp(d), BVec(p, r))))

Accept(n, e) ==
  CASE e.op = "turn" ->
         AllRes(e.g, LAMBDA v : /\ Len(v) = Len(e.rs)
                                /\ \A j \in 1..Len(v) : Row(e.p, e.q, e.rs[j], v[j]))
    [] e.op = "big" ->
         /\ (\A i \in 1..8 : BFits(e.c[i])) \/ GenError(n, "too big")
         /\ e.res.st = "ok"
         /\ BigRow(<<e.c[1], e.c[2]>>, <<e.c[3], e.c[4]>>, <<e.c[7], e.c[8]>>, <<e.c[5], e.c[6]>>, e.res.v)
    [] e.op = "colinear" ->
         /\ (Len(e.ps) < 2 \/ e.ps[1] # e.ps[2]) \/ GenError(n, "equal")
         /\ AllRes(e.g, LAMBDA v : v = AllColinear(RangeOf(e.ps)))
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================