----------------------------- MODULE TwoOptModel -----------------------------
(***************************************************************************)
(* Design model of untangling on a small grid, for every choice of the     *)
(* next intersection and of the vertex to hoist: keep a set of meeting     *)
(* edge pairs, pick one, apply the move, update the set incrementally.     *)
(* Checked: a move always exists and shortens the tour, the incremental    *)
(* set stays exact, an untangled tour is simple, every run terminates.     *)
(***************************************************************************)
EXTENDS TwoOpt, TLC
CONSTANTS W, H, MinN, MaxN
VARIABLES tour, tangled
Grid == (0..(W - 1)) \X (0..(H - 1))

(* canonical representative under rotation and reflection *)
Canon(T) ==
  LET n == Len(T)
      m == CHOOSE i \in 1..n : \A j \in 1..n : LexLeq(T[i], T[j])
      R == Rotate(T, m - 1)
  IN IF LexLess(R[2], R[n]) THEN R ELSE Rotate(Reversed(R), n - 1)

PairsOf(T) == {{{T[p[1]], T[Nx(T, p[1])]}, {T[p[2]], T[Nx(T, p[2])]}} : p \in Tangles(T)}

RECURSIVE ToursOver(_)
ToursOver(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<p>> \o t : t \in ToursOver(S \ {p})} : p \in S}
Starts == UNION {LET m == CHOOSE p \in S : \A q \in S : LexLeq(p, q)
                 IN {t \in {<<m>> \o r : r \in ToursOver(S \ {m})} : LexLess(t[2], t[Len(t)])}
                 : S \in {S \in SUBSET Grid : Cardinality(S) \in MinN..MaxN /\ ~AllColinear(S)}}

Init == /\ tour \in Starts
        /\ tangled = PairsOf(tour)

ColAt(T, i) == Det(T[Pv(T, i)], T[i], T[Nx(T, i)]) = 0
RECURSIVE RunLo(_, _)
RunLo(T, i) == IF ColAt(T, i) THEN RunLo(T, Pv(T, i)) ELSE i
RECURSIVE RunHi(_, _)
RunHi(T, i) == IF ColAt(T, i) THEN RunHi(T, Nx(T, i)) ELSE i
RECURSIVE Walk(_, _, _)
Walk(T, i, j) == IF i = j THEN {i} ELSE {i} \cup Walk(T, Nx(T, i), j)
RunVerts(T, i) == Walk(T, RunLo(T, i), RunHi(T, Nx(T, i)))
RunEdges(T, i) == Walk(T, RunLo(T, i), Pv(T, RunHi(T, Nx(T, i))))
HoistChoices(T, i, j) ==
  {<<k, e>> \in (RunVerts(T, i) \cup RunVerts(T, j)) \X (RunEdges(T, i) \cup RunEdges(T, j)) : CanHoist(T, k, e)}
Parallel(T, i, j) ==
  LET a == T[i] b == T[Nx(T, i)] IN Det(a, b, T[j]) = 0 /\ Det(a, b, T[Nx(T, j)]) = 0

(* drop pairs with removed edges, add the pairs of inserted edges          *)
Update(T2) ==
  LET gone == Edges(tour) \ Edges(T2) new == Edges(T2) \ Edges(tour)
  IN {p \in tangled : p \cap gone = {}} \cup {p \in PairsOf(T2) : p \cap new # {}}
Apply(T2) == tour' = Canon(T2) /\ tangled' = Update(T2)

Uncross == \E p \in Tangles(tour) :
             ~Parallel(tour, p[1], p[2]) /\ Apply(DoUncross(tour, p[1], p[2]))
Hoist == \E p \in Tangles(tour) :
           /\ Parallel(tour, p[1], p[2])
           /\ \E c \in HoistChoices(tour, p[1], p[2]) : Apply(DoHoist(tour, c[1], c[2]))
Next == Uncross \/ Hoist
Spec == Init /\ [][Next]_<<tour, tangled>> /\ WF_<<tour, tangled>>(Next)

HoistExists == \A p \in Tangles(tour) :
  Parallel(tour, p[1], p[2]) => HoistChoices(tour, p[1], p[2]) # {}
SetExact == tangled = PairsOf(tour)
DoneIsSimple == (tangled = {}) <=> IsSimple(tour)
AlwaysShorter == [][Shortens(tour, tour')]_<<tour, tangled>>
Terminates == <>(tangled = {})
=============================================================================
