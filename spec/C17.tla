-------------------------------- MODULE C17 --------------------------------
(* Areas, centroids, bounding boxes, transforms and component-wise         *)
(* arithmetic against their definitions.                                   *)
EXTENDS TraceKit, BigArith, Affine

-----------------------------------------------------------------------------
(* The centroid of a polygon by its fan of triangles from the first vertex *)
RECURSIVE FanSum(_, _, _)
FanSum(P, a, i) == \* axis a: sum of Det * (sum of corner coordinates)
  IF i >= Len(P) THEN 0
  ELSE Det(P[1], P[i], P[i + 1]) * (P[1][a] + P[i][a] + P[i + 1][a]) + FanSum(P, a, i + 1)
CentroidOk(P, c) == \* c = <<x, y, w>>, the point <<x/w, y/w>>
  \A a \in 1..2 : c[a] * (3 * Area2(P)) = c[3] * FanSum(P, a, 2)

MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Box(P) == LET X == {P[i][1] : i \in DOMAIN P} Y == {P[i][2] : i \in DOMAIN P}
          IN <<MinOf(X), MinOf(Y), MaxOf(X), MaxOf(Y)>>
Trunc2(n) == IF n >= 0 THEN n \div 2 ELSE -((-n) \div 2)

-----------------------------------------------------------------------------
Moved(fs, P) == [i \in DOMAIN P |-> Act(fs, P[i])]

RECURSIVE BQSum(_, _)
BQSum(f, i) == IF i = 0 THEN BQOf(0) ELSE BQAdd(BQSum(f, i - 1), f[i])
Args(e) == \A k \in DOMAIN e.args : \A i \in DOMAIN e.args[k] : BQOk(e.args[k][i])
(* what each arithmetic operation means, as a vector of big fractions      *)
Want(e) ==
  LET a == e.args[1]
      D == DOMAIN a
      b == IF Len(e.args) > 1 THEN e.args[2] ELSE a
  IN CASE e.op = "add" -> [i \in D |-> BQAdd(a[i], b[i])]
       [] e.op = "sub" -> [i \in D |-> BQSub(a[i], b[i])]
       [] e.op = "neg" -> [i \in D |-> BQNeg(a[i])]
       [] e.op = "mul" -> [i \in D |-> BQMul(a[i], b[1])]
       [] e.op = "sum" -> [i \in D |-> BQSum([k \in DOMAIN e.args |-> e.args[k][i]], Len(e.args))]
       [] e.op = "sqmag" -> <<BQSum([i \in D |-> BQMul(a[i], a[i])], Len(a))>>
       [] e.op = "dist2" -> <<BQSum([i \in D |-> LET d == BQSub(a[i], b[i]) IN BQMul(d, d)], Len(a))>>
       [] OTHER -> a   \* "same"
DenOk(q) == Len(q) = 2 /\ BSgn(q[2]) = 1 /\ BFits(q[2])
Same(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : DenOk(v[i]) /\ DenOk(w[i]) /\ BQEq(v[i], w[i])
Quot(v, a, b) == Len(v) = Len(a) /\ \A i \in DOMAIN v : BQOk(v[i]) /\ BQEq(BQMul(v[i], b), a[i])

-----------------------------------------------------------------------------
(* Normalisation works on floating point numbers: compare within 1 part in *)
(* 10^3 against centroid to origin, larger side to 1; all in units 10^-4.  *)
Near(a, b) == a - b <= 10 /\ b - a <= 10
NormOk(P, v) ==
  LET n == Len(P)
      b == Box(P)
      side == Max2(b[3] - b[1], b[4] - b[2])
      A == 3 * Area2(P)
      want(i, a) == (10000 * (P[i][a] * A - FanSum(P, a, 2))) \div (A * side)
  IN Len(v) = n /\ \A i \in 1..n : \A a \in 1..2 : Near(v[i][a], want(i, a))

Accept(n, e) ==
  CASE e.op = "area2" -> AllRes(e.g, LAMBDA v : v[2] > 0 /\ v[1] = Area2(e.ps) * v[2])
    [] e.op = "area1" -> AllRes(e.g, LAMBDA v : v[2] > 0 /\ 2 * v[1] = Area2(e.ps) * v[2])
    [] e.op = "areai" -> AllRes(e.g, LAMBDA v : v = Trunc2(Area2(e.ps)))
    [] e.op = "cent" -> /\ Area2(e.ps) # 0 \/ GenError(n, "cent")
                        /\ AllRes(e.g, LAMBDA v : v[3] > 0 /\ CentroidOk(e.ps, v))
    [] e.op = "bbox" -> \E B \in {Box(e.ps)} : AllRes(e.g, LAMBDA v : v = B)
    [] e.op = "tr" -> \E W \in {Moved(e.fs, e.ps)} : AllRes(e.g, LAMBDA v : v = W)
    [] e.op = "norm" -> AllRes(e.g, LAMBDA v : NormOk(e.ps, v))
    [] e.op = "div" -> /\ Args(e) \/ GenError(n, "div")
                       /\ AllRes(e.g, LAMBDA v : Quot(v, e.args[1], e.args[2][1]))
    [] e.op \in {"add", "sub", "neg", "mul", "sum", "sqmag", "dist2", "same"} ->
         /\ Args(e) \/ GenError(n, e.op)
         /\ \E W \in {Want(e)} : AllRes(e.g, LAMBDA v : Same(v, W))
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
