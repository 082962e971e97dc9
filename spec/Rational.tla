------------------------------ MODULE Rational ------------------------------
(* Exact fractions <<n, d>>, d > 0, in lowest terms.                       *)
EXTENDS Integers, Sequences
RECURSIVE QGcd(_, _)
QGcd(a, b) == IF b = 0 THEN a ELSE QGcd(b, a % b)
QAbs(n) == IF n < 0 THEN -n ELSE n
QRed(n, d) == LET g == QGcd(QAbs(n), d) IN <<n \div g, d \div g>>
QOf(n) == <<n, 1>>
QAdd(p, q) == QRed(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
QSub(p, q) == QRed(p[1] * q[2] - q[1] * p[2], p[2] * q[2])
QMul(p, q) == QRed(p[1] * q[1], p[2] * q[2])
=============================================================================
