------------------------------ MODULE SosModel ------------------------------
(***************************************************************************)
(* Design check of simulated tie breaking.  Five indices are picked one    *)
(* after another; every state checks that the parity definition is the     *)
(* turn on the moment curve, that the implementation's exclusive-or of     *)
(* three comparisons computes it, and that it satisfies Knuth's axioms for *)
(* counter-clockwise systems (so algorithms relying on it see a consistent *)
(* general-position configuration).                                        *)
(***************************************************************************)
EXTENDS Geom, SosOrder
CONSTANT MaxIndex
VARIABLE ix
Init == ix = <<>>
Next == Len(ix) < 5 /\ \E v \in 0..MaxIndex : v \notin RangeOf(ix) /\ ix' = Append(ix, v)
Spec == Init /\ [][Next]_ix
On(i) == <<i, 2 ^ i>>
B(p) == IF p THEN 1 ELSE 0
Impl(a, b, c) == IF (B(a < b) + B(a < c) + B(c < b)) % 2 = 1 THEN -1 ELSE 1
C(i, j, k) == Parity(ix[i], ix[j], ix[k]) = 1
Definition ==
  Len(ix) = 3 => /\ Parity(ix[1], ix[2], ix[3]) = Turn(On(ix[1]), On(ix[2]), On(ix[3]))
                 /\ Impl(ix[1], ix[2], ix[3]) = Parity(ix[1], ix[2], ix[3])
Rotation == Len(ix) = 3 => C(1, 2, 3) = C(2, 3, 1)
Antisymmetry == Len(ix) = 3 => C(1, 2, 3) # C(1, 3, 2)
Interiority == Len(ix) = 4 => ((C(4, 2, 3) /\ C(1, 4, 3) /\ C(1, 2, 4)) => C(1, 2, 3))
Transitivity ==
  Len(ix) = 5 => ((C(4, 5, 1) /\ C(4, 5, 2) /\ C(4, 5, 3) /\ C(4, 1, 2) /\ C(4, 2, 3)) => C(4, 1, 3))
(* combining and reversing orientations                                    *)
O == {-1, 0, 1}
Algebra ==
  ix = <<>> =>
    \A x, y, z \in O : /\ Then(Then(x, y), z) = Then(x, Then(y, z))
                       /\ Then3(x, y, z) = Then(x, Then(y, z))
                       /\ -Then(x, y) = Then(-x, -y)
                       /\ Then(x, 0) = x /\ Then(0, x) = x
=============================================================================
