-------------------------------- MODULE C18 --------------------------------
(* Random convex polygons and points sampled in a triangle.                *)
EXTENDS TraceKit, BigArith

BNx(P, i) == IF i = Len(P) THEN 1 ELSE i + 1
Edge(P, i) == BVec(P[i], P[BNx(P, i)])
East == <<BOf(1), BZero>>
(* All turns are left and the edge directions go round exactly once.       *)
Convex(P) ==
  /\ Len(P) >= 3
  /\ \A i \in DOMAIN P : BSgn(BCrs(Edge(P, i), Edge(P, BNx(P, i)))) = 1
  /\ Cardinality({i \in DOMAIN P : BAngCmp(East, Edge(P, i), Edge(P, BNx(P, i))) > 0}) = 1
Lo(S) == CHOOSE a \in S : \A b \in S : BCmp(a, b) <= 0
Hi(S) == CHOOSE a \in S : \A b \in S : BCmp(a, b) >= 0
Xs(P) == {P[i][1] : i \in DOMAIN P}
Ys(P) == {P[i][2] : i \in DOMAIN P}
Fit(P) == \A i \in DOMAIN P : Len(P[i]) = 2 /\ BFits(P[i][1]) /\ BFits(P[i][2])

GoodRandom(n, max, v) ==
  LET P == v.ring IN
  /\ Len(P) >= 3 /\ Len(P) <= Max2(n, 3)
  /\ Fit(P)
  /\ Convex(P)
  /\ <<BZero, BZero>> \in RangeOf(P)
  /\ \A i \in DOMAIN P : BSgn(P[i][2]) > 0 \/ (BSgn(P[i][2]) = 0 /\ BSgn(P[i][1]) >= 0)
  /\ BSub(Hi(Xs(P)), Lo(Xs(P))) = max
  /\ BSub(Hi(Ys(P)), Lo(Ys(P))) = max
  /\ v.stored = Len(P) /\ v.valid

InTri(t, p) == \A k \in 1..3 : BTurn(t[k], t[(k % 3) + 1], p) >= 0
(* a long run in a small triangle returns all its lattice points           *)
Lattice(t) == {p \in (0..6) \X (0..6) : \A k \in 1..3 : Turn(t[k], t[(k % 3) + 1], p) >= 0}
Accept(n, e) ==
  CASE e.op = "convex" -> AllRes(e.g, LAMBDA v : GoodRandom(e.n, e.max, v))
    [] e.op = "sample" ->
         /\ (Fit(e.t) /\ BTurn(e.t[1], e.t[2], e.t[3]) = 1) \/ GenError(n, "sample")
         /\ AllRes(e.g, LAMBDA v : Fit(v) /\ \A i \in DOMAIN v : InTri(e.t, v[i]))
    [] e.op = "cover" ->
         /\ Turn(e.t[1], e.t[2], e.t[3]) = 1 \/ GenError(n, "cover")
         /\ AllRes(e.g, LAMBDA v : RangeOf(v) = Lattice(e.t))
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
