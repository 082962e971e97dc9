-------------------------------- MODULE C20 --------------------------------
(* tie breaking, orientation algebra and total orders, as recorded          *)
EXTENDS TraceKit, BigArith, SosOrder
CmpI(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
(* 32-bit words as <<low, high>> halves                                     *)
WCmp(a, b) == IF a[2] # b[2] THEN CmpI(a[2], b[2]) ELSE CmpI(a[1], b[1])
Increasing(ix) == \A i \in 1..(Len(ix) - 1) : WCmp(ix[i], ix[i + 1]) = -1

SosRow(v) ==
  LET s == Parity(v[1], v[2], v[3])
  IN Len(v) = 10 /\ SubSeq(v, 4, 10) = <<s, -s, s, s, s, 1, -1>>
SosAll(n, v) ==
  /\ Len(v) = n * (n - 1) * (n - 2)
  /\ Cardinality({<<v[i][1], v[i][2], v[i][3]>> : i \in DOMAIN v}) = Len(v)
  /\ \A i \in DOMAIN v : SosRow(v[i])
AlgRow(v) ==
  LET a == v[1] b == v[2] c == v[3]
  IN /\ Len(v) = 14
     /\ SubSeq(v, 4, 14) =
          <<Then(a, b), Then3(a, b, c), Then3(a, b, c), -a, a, -Then(a, b),
            Then(a, 1), Then(a, -1), B2I(a = 1), B2I(a = -1), B2I(a = 0)>>
Alg(v) == /\ Len(v) = 27
          /\ Cardinality({<<v[i][1], v[i][2], v[i][3]>> : i \in DOMAIN v}) = 27
          /\ \A i \in DOMAIN v : AlgRow(v[i])
(* which of the two the minimum / maximum is: 1 first, 2 second, 3 a tie    *)
MinOf(s) == IF s = 0 THEN 3 ELSE IF s < 0 THEN 1 ELSE 2
MaxOf(s) == IF s = 0 THEN 3 ELSE IF s > 0 THEN 1 ELSE 2
PairIs(s) == <<s, s, -s, MinOf(s), MaxOf(s), MinOf(s), MaxOf(s)>>
PointIs(s) ==
  PairIs(s) \o <<MinOf(s), MaxOf(s), s, s, -s, B2I(s < 0), B2I(s <= 0), B2I(s > 0), B2I(s >= 0),
                 B2I(s = 0), B2I(s # 0)>>
Row(c, ix, Cmp(_, _), e) ==
  LET k == Len(c)
      a == e[1][1] - 1
      b == e[1][2] - 1
      At0(i) == c[(i % k) + 1]
      x == Cmp(At0(a), At0(b))
      x2 == Cmp(At0(a + 1), At0(b + 2))
      x3 == Cmp(At0(2 * a), At0(b + 3))
      ij == WCmp(ix[(a % Len(ix)) + 1], ix[(b % Len(ix)) + 1])
  IN Tail(e) = <<PairIs(x), PointIs(x), PointIs(Lex(<<x, x2>>)), PointIs(Lex(<<x, x2, x3>>)),
                 PairIs(Lex(<<x, x2>>)), PairIs(Lex(<<x, x2, x3>>)),
                 PairIs(Lex(<<ij, x, x2>>)), PairIs(Lex(<<x, ij>>)), PairIs(Lex(<<x, x2>>)), PairIs(ij)>>
Rows(c, ix, Cmp(_, _), v) ==
  LET k == Len(c) IN
  /\ Len(v) = k * k
  /\ \A a, b \in 1..k : LET e == v[(a - 1) * k + b] IN e[1] = <<a, b>> /\ Row(c, ix, Cmp, e)
Accept(n, e) ==
  CASE e.op = "sos" -> (Increasing(e.ix) \/ GenError(n, "ix")) /\ AllRes(e.g, LAMBDA v : SosAll(Len(e.ix), v))
    [] e.op = "alg" -> AllRes(e.g, Alg)
    [] e.op = "ord" -> AllRes(e.g, LAMBDA v : Rows(e.c, e.ix, BCmp, v))
    [] e.op = "ords" -> AllRes(e.g, LAMBDA v : v = <<>> \/ Rows(e.c, e.ix, CmpI, v))
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
