------------------------------ MODULE AffineGen -----------------------------
(* Every product of up to K factors from a pool, built one factor at a     *)
(* time on either side; the matrix of the product acts like the factors.   *)
EXTENDS Affine, TLC, Json
CONSTANT K
VARIABLES fs, mat
V(a, b) == <<QOf(a), QOf(b)>>
Pool == {<<1, V(2, -1)>>, <<1, V(-3, 5)>>, <<2, V(2, 3)>>, <<2, V(-1, 2)>>, <<3, V(-2, -2)>>, <<2, V(0, 1)>>}
Init == fs = <<>> /\ mat = Eye(2)
Next == /\ Len(fs) < K
        /\ \E f \in Pool : \/ fs' = Append(fs, f) /\ mat' = MatMul(mat, FactorMat(f, 2))
                           \/ fs' = <<f>> \o fs /\ mat' = MatMul(FactorMat(f, 2), mat)
Spec == Init /\ [][Next]_<<fs, mat>>
Emit == fs = <<>> \/ PrintT("GEN " \o ToJson([fs |-> [i \in DOMAIN fs |-> <<fs[i][1], fs[i][2][1][1], fs[i][2][2][1]>>]]))
Agree == \A p \in {V(0, 0), V(3, -2), V(7, 11)} : MatAct(mat, p) = Act(fs, p)
=============================================================================
