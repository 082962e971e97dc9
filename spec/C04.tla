-------------------------------- MODULE C04 --------------------------------
(* Segment intersection and containment against the point-set definition.  *)
EXTENDS TraceKit

Bit(f, k) == (f \div k) % 2 = 1
IsectRow(p) ==
  [f1 \in 1..16 |->
     LET f == f1 - 1 IN
     SegIsect(p[1], Bit(f, 1), p[2], Bit(f, 2), p[3], Bit(f, 4), p[4], Bit(f, 8))]
ContRow(a, b, pts) ==
  [j \in 1..Len(pts) |->
     B2I(OnSeg(pts[j], a, FALSE, b, FALSE)) + 2 * B2I(OnSeg(pts[j], a, TRUE, b, FALSE))
     + 4 * B2I(OnSeg(pts[j], a, FALSE, b, TRUE)) + 8 * B2I(OnSeg(pts[j], a, TRUE, b, TRUE))]
PairMeets(s, t) == Meets(s[1], s[2], s[3], s[4], t[1], t[2], t[3], t[4])
PairSet(segs) ==
  {<<i, j>> \in (1..Len(segs)) \X (1..Len(segs)) : i < j /\ PairMeets(segs[i], segs[j])}

(* Of two ends of segments the tighter one bounds their intersection: as upper ends the lower *)
(* one, as lower ends the higher one, and at one point an excluded end wins.                  *)
EndsRow(a, b) ==
  [f1 \in 1..4 |->
     LET f  == f1 - 1
         ia == B2I(Bit(f, 1))
         ib == B2I(Bit(f, 2))
         E(p) == IF a = b THEN <<p[1], p[2], ia * ib>>
                 ELSE <<p[1], p[2], IF p = a THEN ia ELSE ib>>
     IN <<<<a[1], a[2], ia>>, E(LexMin(a, b)), E(LexMax(a, b))>>]

Accept(n, e) ==
  CASE e.op = "ends" ->
         LET row == EndsRow(e.a, e.b) IN AllRes(e.g, LAMBDA v : v = row)
    [] e.op = "isect" ->
         LET row == IsectRow(e.p) IN AllRes(e.g, LAMBDA v : v = row)
    [] e.op = "contains" ->
         LET row == ContRow(e.a, e.b, e.pts) IN AllRes(e.g, LAMBDA v : v = row)
    [] e.op = "all" ->
         LET S == PairSet(e.segs) IN
         AllRes(e.g, LAMBDA v : Len(v) = Cardinality(S) /\ RangeOf(v) = S)
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================