----------------------------- MODULE ZOrderImpl -----------------------------
(***************************************************************************)
(* The design of the hash on scaled-down words: spreading by doubling      *)
(* shifts and masks inserts a zero after every bit; the key shift makes    *)
(* every coordinate of the box fit the key; so codes of dominated points   *)
(* are ordered.  B is the key width in bits (a power of two); coordinates  *)
(* have C bits.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS B, C
VARIABLES phase, a, b, lo, hi, p
vars == <<phase, a, b, lo, hi, p>>
BitAt(n, k) == (n \div 2^k) % 2
RECURSIVE FromBits(_, _)
FromBits(f, n) == IF n = 0 THEN 0 ELSE FromBits(f, n - 1) + f[n - 1] * 2^(n - 1)
Or(x, y) == FromBits([k \in 0..(2 * B - 1) |-> IF BitAt(x, k) = 1 \/ BitAt(y, k) = 1 THEN 1 ELSE 0], 2 * B)
(* groups of s set bits, then s clear ones, over 2B bits *)
Mask(x, s) == FromBits([k \in 0..(2 * B - 1) |-> IF (k \div s) % 2 = 0 THEN BitAt(x, k) ELSE 0], 2 * B)
RECURSIVE Spread(_, _)
Spread(x, s) == IF s = 0 THEN x ELSE Spread(Mask(Or(x, (x * 2^s) % 2^(2 * B)), s), s \div 2)
SpreadOf(x) == Spread(x, B \div 2)
RECURSIVE Gather(_, _)
Gather(x, s) == IF s = B THEN x % 2^B ELSE Gather(Mask(Or(x, x \div 2^s), 2 * s), 2 * s)
GatherOf(x) == Gather(Mask(x, 1), 1)
Code(x, y) == Or(SpreadOf(x), 2 * SpreadOf(y))
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Shift(w) == IF BitLen(w) > B THEN BitLen(w) - B ELSE 0
Key(x) == (x - lo) \div 2^Shift(hi - lo)

(* walks: a climbs over every word beside every b; the box [lo, hi] grows  *)
(* and p climbs inside it                                                  *)
Init == /\ phase \in {"pair", "box"} /\ a = 0
        /\ IF phase = "pair" THEN b \in 0..(2^B - 1) /\ lo = 0 ELSE b = 0 /\ lo \in 0..(2^C - 1)
        /\ p = lo /\ hi = lo
Next == \/ phase = "pair" /\ a < 2^B - 1 /\ a' = a + 1 /\ UNCHANGED <<phase, b, lo, hi, p>>
        \/ phase = "box" /\ hi < 2^C - 1 /\ p = lo /\ hi' = hi + 1 /\ UNCHANGED <<phase, a, b, lo, p>>
        \/ phase = "box" /\ p < hi /\ p' = p + 1 /\ UNCHANGED <<phase, a, b, lo, hi>>
Spec == Init /\ [][Next]_vars
Spreads == phase = "pair" =>
  /\ \A k \in 0..(2 * B - 1) : BitAt(Code(a, b), k) = IF k % 2 = 0 THEN BitAt(a, k \div 2) ELSE BitAt(b, k \div 2)
  /\ GatherOf(Code(a, b)) = a /\ GatherOf(Code(a, b) \div 2) = b
(* monotone in each word, hence on boxes *)
Monotone == phase = "pair" =>
  /\ a > 0 => SpreadOf(a - 1) < SpreadOf(a)
  /\ a > 0 => Code(a - 1, b) < Code(a, b) /\ Code(b, a - 1) < Code(b, a)
KeyFits == phase = "box" => Key(p) \in 0..(2^B - 1) /\ (p < hi => Key(p) <= Key(p + 1))
=============================================================================
