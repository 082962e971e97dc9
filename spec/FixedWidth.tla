----------------------------- MODULE FixedWidth -----------------------------
(***************************************************************************)
(* Exact predicates on w-bit two's complement words with 2w-bit            *)
(* intermediates, operation by operation as the integer scalar types do    *)
(* it: differences by wrapping subtraction reinterpreted as unsigned,      *)
(* signs tracked apart, magnitudes multiplied in the double width.  Every  *)
(* choice of words is explored; the results must be the exact geometry,    *)
(* although no subtraction of two words need fit a word.                   *)
(***************************************************************************)
EXTENDS Geom
CONSTANT Bits
VARIABLES n, w     \* w: the six words p.x p.y q.x q.y r.x r.y chosen so far
M == 2 ^ Bits
LM == 2 ^ (2 * Bits)
Words == (-(M \div 2))..((M \div 2) - 1)
Wrap(x) == ((x + M \div 2) % M) - M \div 2          \* signed word
Unsigned(x) == x % M
Long(x) == x % LM                                   \* unsigned double word
AbsU(x) == IF x < 0 THEN Unsigned(-x) ELSE x        \* unsigned_abs

Init == n = 0 /\ w = <<>>
Next == n < 6 /\ \E v \in Words : w' = Append(w, v) /\ n' = n + 1
Spec == Init /\ [][Next]_<<n, w>>

Mag1(a, b) == IF b > a THEN Unsigned(Wrap(b - a)) ELSE Unsigned(Wrap(a - b))
Diff(a, b) == <<Mag1(a, b), b > a>>
Signed(a, b) == \* |ux| |vy| with the sign of the product, as in the code
  (a[2] # b[2]) /\ a[1] # 0 /\ b[1] # 0
CmpL(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpProducts(ux, vy, uy, vx) ==
  LET s == Signed(ux, vy)
      t == Signed(uy, vx)
      a == Long(ux[1] * vy[1])
      b == Long(uy[1] * vx[1])
  IN IF s /\ ~t THEN -1 ELSE IF ~s /\ t THEN 1 ELSE IF s THEN CmpL(b, a) ELSE CmpL(a, b)
ImplSlope(p, q, r) ==
  CmpProducts(Diff(q[1], p[1]), Diff(r[2], p[2]), Diff(q[2], p[2]), Diff(r[1], p[1]))
(* the direction's words are taken as they are; diff(q, p) is q seen from p *)
ImplAlong(d, p, q) ==
  CmpProducts(<<AbsU(d[1]), d[1] < 0>>, Diff(q[2], p[2]), <<AbsU(d[2]), d[2] < 0>>, Diff(q[1], p[1]))
ImplPerp(d, p, q) ==
  CmpProducts(<<AbsU(d[2]), d[2] > 0>>, Diff(q[2], p[2]), <<AbsU(d[1]), d[1] < 0>>, Diff(q[1], p[1]))
Square(a) == Long(a * a)
ImplDist(p, q, r) ==
  LET s == Square(Mag1(p[1], q[1])) + Square(Mag1(p[2], q[2]))
      t == Square(Mag1(p[1], r[1])) + Square(Mag1(p[2], r[2]))
  IN IF s >= LM /\ t < LM THEN 1 ELSE IF s < LM /\ t >= LM THEN -1 ELSE CmpL(Long(s), Long(t))

P == <<w[1], w[2]>>
Q == <<w[3], w[4]>>
R == <<w[5], w[6]>>
Slope == n = 6 => ImplSlope(P, Q, R) = Turn(P, Q, R)
Along == n = 6 => ImplAlong(P, Q, R) = Sgn(Crs(P, Sub(R, Q)))
Perps == n = 6 => ImplPerp(P, Q, R) = Sgn(Crs(Perp(P), Sub(R, Q)))
Dist == n = 6 => ImplDist(P, Q, R) = Sgn(Dist2(P, Q) - Dist2(P, R))
(* the products never leave the double width                               *)
Fits == n = 6 => /\ Mag1(w[1], w[3]) * Mag1(w[2], w[4]) < LM
                 /\ AbsU(w[1]) * Mag1(w[2], w[4]) < LM
=============================================================================
