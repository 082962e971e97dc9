------------------------------ MODULE IterGen ------------------------------
(* Every interleaving of front and back steps of every iterator over rings *)
(* of up to N vertices, two steps past exhaustion of a full ring.          *)
EXTENDS RingIter, TLC, Json
CONSTANT N
VARIABLES n, from, kind, end, q, ops, given
vars == <<n, from, kind, end, q, ops, given>>
Init == /\ n \in 3..N /\ from \in 1..n /\ kind \in 0..2
        /\ end \in IF kind = 0 THEN {1} ELSE 1..n
        /\ Defined(from, kind, end)
        /\ q = Deque(n, from, kind, end) /\ ops = <<>> /\ given = <<>>
Next == /\ Len(ops) < n + 2
        /\ \E op \in {1, 2} :
             /\ given' = IF q = <<>> THEN given ELSE Append(given, Gives(q, op))
             /\ q' = After(q, op) /\ ops' = Append(ops, op)
        /\ UNCHANGED <<n, from, kind, end>>
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = n + 2 => PrintT("GEN " \o ToJson(<<n, from, kind, end>> \o ops))
(* every element is given once, nothing is lost                            *)
Conserved ==
  LET all == Deque(n, from, kind, end) IN
  /\ Len(given) + Len(q) = Len(all)
  /\ {given[i] : i \in DOMAIN given} \cup {q[i] : i \in DOMAIN q} = {all[i] : i \in DOMAIN all}
  /\ Len(ops) >= Len(all) => q = <<>>
=============================================================================
