------------------------------ MODULE RingImpl ------------------------------
(***************************************************************************)
(* The two arrays behind a boundary (position -> vertex and its inverse)   *)
(* under the swaps that the three reordering operations are made of:       *)
(*   reverse(p, q)  swaps the ends of the cyclic stretch p .. q inwards    *)
(*   join(p, q)     walks vertex q backwards until it follows p            *)
(*   turn           reverse of the whole ring, keeping its first place     *)
(* Every ring, every pair of positions, one swap a step.  Checked:         *)
(*  - the arrays stay inverse to each other after each swap;               *)
(*  - reverse between two edges is Uncross, join is Hoist (TwoOpt), and    *)
(*    reversing the whole ring changes its direction and nothing else;     *)
(*  - the number of swaps is linear.                                       *)
(***************************************************************************)
EXTENDS TwoOpt
CONSTANTS MinN, MaxN
VARIABLES ring, pos, op, a, b, old, steps
vars == <<ring, pos, op, a, b, old, steps>>
N == Len(ring)
Init == \E n \in MinN..MaxN :
  /\ ring = [i \in 1..n |-> i] /\ pos = [i \in 1..n |-> i]
  /\ op = "idle" /\ a = 1 /\ b = 1 /\ old = <<>> /\ steps = 0
Swap(i, j) ==
  /\ ring' = [ring EXCEPT ![i] = ring[j], ![j] = ring[i]]
  /\ pos' = [pos EXCEPT ![ring[i]] = pos[ring[j]], ![ring[j]] = pos[ring[i]]]
Begin == /\ op = "idle"
         /\ \E p, q \in 1..N : /\ p # q
                               /\ op' \in {"reverse", "join"}
                               /\ a' = p /\ b' = q
                               /\ old' = <<op', p, q, ring>>
         /\ steps' = 0 /\ UNCHANGED <<ring, pos>>
Reverse == /\ op = "reverse"
           /\ Swap(a, b) /\ a' = Nx(ring, a) /\ steps' = steps + 1
           /\ IF a' = b THEN op' = "over" /\ b' = b
              ELSE b' = Pv(ring, b) /\ op' = IF b' = a' THEN "over" ELSE "reverse"
           /\ UNCHANGED old
Join == /\ op = "join"
        /\ IF Pv(ring, b) = a THEN op' = "over" /\ UNCHANGED <<ring, pos, a, b, steps>>
           ELSE /\ Swap(Pv(ring, b), b) /\ b' = Pv(ring, b) /\ a' = a
                /\ steps' = steps + 1 /\ op' = op
        /\ UNCHANGED old
Rest == op = "over" /\ op' = "idle" /\ a' = 1 /\ b' = 1 /\ old' = <<>> /\ steps' = 0 /\ UNCHANGED <<ring, pos>>
Next == Begin \/ Reverse \/ Join \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Inverse == \A i \in 1..N : ring[pos[i]] = i /\ pos[ring[i]] = i
Over == op = "over"
R0 == old[4]
(* the stretch from p to q as a set of offsets *)
LenOf(p, q) == ((q - p + N) % N) + 1
At0(p, k) == ((p - 1 + k) % N) + 1
Reversal == (Over /\ old[1] = "reverse") =>
  LET p == old[2] q == old[3] m == LenOf(p, q) IN
  \A k \in 0..(N - 1) : ring[At0(p, k)] = IF k < m THEN R0[At0(p, m - 1 - k)] ELSE R0[At0(p, k)]
IsUncross == (Over /\ old[1] = "reverse") =>
  LET i == Pv(ring, old[2]) j == old[3] IN
  i # j => Edges(ring) = Edges(DoUncross(R0, Min2(i, j), Max2(i, j)))
IsTurn == (Over /\ old[1] = "reverse" /\ Pv(ring, old[2]) = old[3]) => SameCycle(ring, Reversed(R0))
IsHoist == (Over /\ old[1] = "join") => SameCycle(ring, DoHoist(R0, old[3], old[2]))
Linear == steps <= N
Ends == (op # "idle") ~> (op = "idle")
=============================================================================
