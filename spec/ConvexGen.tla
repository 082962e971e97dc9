------------------------------ MODULE ConvexGen ------------------------------
(***************************************************************************)
(* Random convex polygons, with every possible outcome of the random       *)
(* source: both coordinate lists sum to zero, their positive parts to M.   *)
(* The vectors are chained in angular order, ties in any order.            *)
(* Checked: no partial sum leaves the scalar type (|value| <= M), the      *)
(* chain closes in the origin, unless everything is colinear its corners   *)
(* are the strictly convex hull of the chain, rooted in its lowest (then   *)
(* leftmost) vertex, exactly M wide and M high; some outcome is not        *)
(* colinear, so trying again ends with probability one.                    *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS M, N
VARIABLES xs, ys, left, sums
vars == <<xs, ys, left, sums>>
Vals == (-M)..M
Sum(s) == SumFT(s, 1, Len(s))
ZeroSum == {s \in [1..N -> Vals] :
  /\ Sum([i \in 1..N |-> Max2(s[i], 0)]) = M
  /\ Sum([i \in 1..N |-> Min2(s[i], 0)]) = -M}
Rising(s) == \A i \in 1..(N - 1) : s[i] <= s[i + 1]
Init == /\ xs \in {s \in ZeroSum : Rising(s)} /\ ys \in ZeroSum
        /\ left = 1..N /\ sums = <<>>
V(i) == <<xs[i], ys[i]>>
X == <<1, 0>>
At == IF sums = <<>> THEN <<0, 0>> ELSE sums[Len(sums)]
(* equal vectors need not be told apart *)
Take == \E i \in left :
  /\ \A j \in left : AngCmp(X, V(i), V(j)) <= 0
  /\ \A j \in left : V(j) = V(i) => i <= j
  /\ sums' = Append(sums, Add(At, V(i)))
  /\ left' = left \ {i} /\ UNCHANGED <<xs, ys>>
Spec == Init /\ [][Take]_vars
-----------------------------------------------------------------------------
Fits == \A p \in RangeOf(sums) : Abs(p[1]) <= M /\ p[2] \in 0..M
Done == left = {}
S == RangeOf(sums)
Corner(k) ==   \* neither a repetition nor straight on
  LET a == sums[Pv(sums, k)] b == sums[k] IN
  /\ a # b
  /\ LET Other == {j \in 1..N : sums[j] # b}
         nxt == CHOOSE j \in Other : \A i \in Other : ((j - k) % N) <= ((i - k) % N)
     IN Det(a, b, sums[nxt]) # 0
Corners == SelectSeq(sums, LAMBDA p : \E k \in 1..N : sums[k] = p /\ Corner(k))
Flat == AllColinear(S)
Lo(T) == CHOOSE x \in T : \A y \in T : x <= y
Hi(T) == CHOOSE x \in T : \A y \in T : x >= y
Dedup(s) == [i \in 1..Cardinality(RangeOf(s)) |->
              CHOOSE p \in RangeOf(s) :
                Cardinality({q \in RangeOf(s) : \E a, b \in DOMAIN s : s[a] = q /\ s[b] = p /\ a <= b
                               /\ \A z \in DOMAIN s : s[z] = p => z >= b}) = i]
Result == Done =>
  /\ At = <<0, 0>>
  /\ ~Flat => LET C == Dedup(Corners) IN
       /\ IsHullOf(C, S) /\ Len(C) \in 3..N
       /\ <<0, 0>> \in RangeOf(C)
       /\ \A p \in S : p[2] > 0 \/ (p[2] = 0 /\ p[1] >= 0)
       /\ Hi({p[1] : p \in S}) - Lo({p[1] : p \in S}) = M
       /\ Hi({p[2] : p \in S}) = M
Round == \E a, b \in ZeroSum : \E i, j \in 1..N : Crs(<<a[i], b[i]>>, <<a[j], b[j]>>) # 0
ASSUME Round
=============================================================================
