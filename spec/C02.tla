-------------------------------- MODULE C02 --------------------------------
(* Comparing distances from a point is the exact order of the squared      *)
(* Euclidean distances.  Each result lists several entry points (and the   *)
(* negated answers of the swapped question).                               *)
EXTENDS TraceKit, BigArith

AllEq(s, x) == Len(s) = 4 /\ \A i \in DOMAIN s : s[i] = x
Accept(n, e) ==
  CASE e.op = "dist" ->
         AllRes(e.g, LAMBDA v :
           \/ Len(v) = 0   \* embedding that does not preserve distances
           \/ /\ Len(v) = Len(e.rs)
              /\ \A j \in 1..Len(v) : AllEq(v[j], Sgn(Dist2(e.p, e.q) - Dist2(e.p, e.rs[j]))))
    [] e.op = "big" ->
         LET p == <<e.c[1], e.c[2]>> q == <<e.c[3], e.c[4]>> r == <<e.c[5], e.c[6]>> IN
         /\ (\A i \in 1..6 : BFits(e.c[i])) \/ GenError(n, "too big")
         /\ e.res.st = "ok"
         /\ AllEq(e.res.v, BCmp(BDist2(p, q), BDist2(p, r)))
    [] OTHER -> FALSE

Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
