------------------------------ MODULE BigArith ------------------------------
(***************************************************************************)
(* Exact integer arithmetic beyond TLC's 32 bits: the scalar types under   *)
(* test carry 64-bit, arbitrary precision and floating point values.       *)
(* A number is <<sign, l0, l1, ...>>: sign \in {-1,0,1}, little-endian     *)
(* magnitude in base 10^4 without leading zero limbs; zero is <<0>>.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

BBase == 10000
BZero == <<0>>
Mag(a) == Tail(a)

(* Column values (each < 2^31) to normalised limbs *)
RECURSIVE BNorm(_, _, _, _)
BNorm(col, i, carry, acc) ==
  IF i > Len(col)
  THEN IF carry = 0 THEN acc ELSE BNorm(col, i, carry \div BBase, Append(acc, carry % BBase))
  ELSE LET v == col[i] + carry IN BNorm(col, i + 1, v \div BBase, Append(acc, v % BBase))
RECURSIVE BStrip(_)
BStrip(m) == IF Len(m) > 0 /\ m[Len(m)] = 0 THEN BStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m

At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MagLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
MagAdd(a, b) == BNorm([i \in 1..MagLen(a, b) |-> At(a, i) + At(b, i)], 1, 0, <<>>)
(* requires a >= b; floor division carries the borrows *)
MagSub(a, b) == BStrip(BNorm([i \in 1..Len(a) |-> a[i] - At(b, i)], 1, 0, <<>>))
RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
  IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] > b[i] THEN 1 ELSE -1) ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN 1 ELSE -1) ELSE MagCmpAt(a, b, Len(a))
RECURSIVE ColSum(_, _, _, _, _)
ColSum(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k - i] + ColSum(a, b, k, i + 1, hi)
(* column k holds sum of a[i] b[k-i]: at most 20 * 9999^2 < 2^31 *)
MagMul(a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE BStrip(BNorm([k \in 1..(Len(a) + Len(b) - 1) |->
         ColSum(a, b, k + 1, IF k + 1 - Len(b) > 1 THEN k + 1 - Len(b) ELSE 1,
                IF k < Len(a) THEN k ELSE Len(a))], 1, 0, <<>>))

BSgn(a) == a[1]
BNeg(a) == IF a[1] = 0 THEN a ELSE [a EXCEPT ![1] = -a[1]]
BMake(s, m) == IF Len(m) = 0 THEN BZero ELSE <<s>> \o m
BAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN BMake(a[1], MagAdd(Mag(a), Mag(b)))
  ELSE LET c == MagCmp(Mag(a), Mag(b))
       IN IF c = 0 THEN BZero
          ELSE IF c > 0 THEN BMake(a[1], MagSub(Mag(a), Mag(b)))
          ELSE BMake(b[1], MagSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN BZero ELSE BMake(a[1] * b[1], MagMul(Mag(a), Mag(b)))
BCmp(a, b) == BSgn(BSub(a, b))

RECURSIVE BMagOf(_)
BMagOf(n) == IF n = 0 THEN <<>> ELSE <<n % BBase>> \o BMagOf(n \div BBase)
BOf(n) == IF n = 0 THEN BZero ELSE IF n > 0 THEN <<1>> \o BMagOf(n) ELSE <<-1>> \o BMagOf(-n)
BFits(a) == Len(a) <= 20  \* so that sums of products stay inside TLC's integers

(* Points are <<x, y>> of big numbers *)
BVec(p, q) == <<BSub(q[1], p[1]), BSub(q[2], p[2])>>
BCrs(u, v) == BSub(BMul(u[1], v[2]), BMul(u[2], v[1]))
BDot(u, v) == BAdd(BMul(u[1], v[1]), BMul(u[2], v[2]))
BPerp(v) == <<BNeg(v[2]), v[1]>>
BTurn(p, q, r) == BSgn(BCrs(BVec(p, q), BVec(p, r)))
BDist2(p, q) == BDot(BVec(p, q), BVec(p, q))
BIsZero(v) == v[1][1] = 0 /\ v[2][1] = 0
BAngHalf(d, v) ==
  LET c == BSgn(BCrs(d, v)) IN
  IF BIsZero(v) THEN 0 ELSE IF c > 0 THEN 1 ELSE IF c < 0 THEN 3
  ELSE IF BSgn(BDot(d, v)) > 0 THEN 0 ELSE 2
BAngCmp(d, u, v) ==
  LET hu == BAngHalf(d, u) hv == BAngHalf(d, v)
  IN IF hu # hv THEN (IF hu < hv THEN -1 ELSE 1)
     ELSE IF hu \in {0, 2} THEN 0 ELSE -BSgn(BCrs(u, v))
(* Big fractions <<num, den>>, den > 0, not reduced *)
BQOk(q) == Len(q) = 2 /\ BFits(q[1]) /\ BFits(q[2]) /\ BSgn(q[2]) = 1
BQOf(n) == <<BOf(n), BOf(1)>>
BQAdd(p, q) == <<BAdd(BMul(p[1], q[2]), BMul(q[1], p[2])), BMul(p[2], q[2])>>
BQNeg(p) == <<BNeg(p[1]), p[2]>>
BQSub(p, q) == BQAdd(p, BQNeg(q))
BQMul(p, q) == <<BMul(p[1], q[1]), BMul(p[2], q[2])>>
BQEq(p, q) == BMul(p[1], q[2]) = BMul(q[1], p[2])
=============================================================================
