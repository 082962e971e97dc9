------------------------------- MODULE ZOrder -------------------------------
(***************************************************************************)
(* Z-order codes on machine words.  A word is a sequence of 16-bit parts,  *)
(* least significant first (TLC integers are 32 bit).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
Pow2(k) == 2^k
Bit(w, k) == (w[(k \div 16) + 1] \div Pow2(k % 16)) % 2
(* z interleaves a (even positions) and b (odd positions) *)
Interleaves(z, a, b) ==
  /\ Len(z) = 2 * Len(a) /\ Len(b) = Len(a)
  /\ \A k \in 0..(16 * Len(z) - 1) : Bit(z, k) = IF k % 2 = 0 THEN Bit(a, k \div 2) ELSE Bit(b, k \div 2)
RECURSIVE WLeqAt(_, _, _)
WLeqAt(x, y, i) == IF i = 0 THEN TRUE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE WLeqAt(x, y, i - 1)
WLeq(x, y) == Len(x) = Len(y) /\ WLeqAt(x, y, Len(x))
=============================================================================
