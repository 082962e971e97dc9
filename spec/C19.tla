-------------------------------- MODULE C19 --------------------------------
EXTENDS TraceKit, BigArith, ZOrder
Inside(p, lo, hi) == \A k \in 1..2 : BCmp(lo[k], p[k]) <= 0 /\ BCmp(p[k], hi[k]) <= 0
(* codes of dominated points are ordered, in particular those of a sub-box *)
(* around the points in it                                                 *)
Ordered(ps, v) ==
  /\ Len(v) = Len(ps) /\ \A i \in DOMAIN v : Len(v[i]) = 4
  /\ \A i, j \in DOMAIN ps :
       (i # j /\ BCmp(ps[i][1], ps[j][1]) <= 0 /\ BCmp(ps[i][2], ps[j][2]) <= 0) => WLeq(v[i], v[j])
Accept(n, e) ==
  CASE e.op = "pair" -> AllRes(e.g, LAMBDA v : Interleaves(v.z, e.a, e.b) /\ v.un = <<e.a, e.b>>)
    [] e.op = "unpair" -> AllRes(e.g, LAMBDA v : Interleaves(e.z, v.un[1], v.un[2]) /\ v.z = e.z)
    [] e.op = "box" ->
         /\ (\A i \in DOMAIN e.ps : Inside(e.ps[i], e.lo, e.hi)) \/ GenError(n, "box")
         /\ AllRes(e.g, LAMBDA v : Ordered(e.ps, v))
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
