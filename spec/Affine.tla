------------------------------- MODULE Affine -------------------------------
(***************************************************************************)
(* Transforms as sequences of factors.  A factor is <<kind, vec>> with     *)
(* kind 1 = translate by vec, 2 = scale per axis by vec, 3 = scale every   *)
(* axis by vec[1].  The product f1 * f2 * ... * fk applied to a point is   *)
(* f1(f2(...fk(p))): the right factor acts first.                          *)
(* Coordinates are exact fractions.                                        *)
(***************************************************************************)
EXTENDS Rational
FactorAt(f, p) ==
  [i \in DOMAIN p |->
     CASE f[1] = 1 -> QAdd(p[i], f[2][i])
       [] f[1] = 2 -> QMul(p[i], f[2][i])
       [] OTHER -> QMul(p[i], f[2][1])]
RECURSIVE Act(_, _)
Act(fs, p) == IF fs = <<>> THEN p ELSE FactorAt(Head(fs), Act(Tail(fs), p))

(* The same composite as a homogeneous matrix (row i, column j), built by  *)
(* matrix products; what Act means must not depend on how it is grouped.   *)
Eye(n) == [i \in 1..(n + 1) |-> [j \in 1..(n + 1) |-> IF i = j THEN QOf(1) ELSE QOf(0)]]
FactorMat(f, n) ==
  [i \in 1..(n + 1) |-> [j \in 1..(n + 1) |->
     IF i = n + 1 THEN (IF j = i THEN QOf(1) ELSE QOf(0))
     ELSE IF j = i THEN (CASE f[1] = 1 -> QOf(1) [] f[1] = 2 -> f[2][i] [] OTHER -> f[2][1])
     ELSE IF j = n + 1 /\ f[1] = 1 THEN f[2][i] ELSE QOf(0)]]
RECURSIVE RowCol(_, _, _, _, _)
RowCol(A, B, i, j, k) == IF k = 0 THEN QOf(0) ELSE QAdd(QMul(A[i][k], B[k][j]), RowCol(A, B, i, j, k - 1))
MatMul(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN A |-> RowCol(A, B, i, j, Len(A))]]
MatAct(M, p) == LET n == Len(p) IN
  [i \in 1..n |-> QAdd(RowCol(M, [k \in 1..(n + 1) |-> <<IF k <= n THEN p[k] ELSE QOf(1)>>], i, 1, n + 1), QOf(0))]
=============================================================================
