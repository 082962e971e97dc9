------------------------------ MODULE IterImpl ------------------------------
(***************************************************************************)
(* The boundary iterator as the code keeps it: two positions on the ring   *)
(* (both still to be given) and an "exhausted" flag, for every ring size,  *)
(* start, kind of end, and every interleaving of front and back steps.     *)
(* It refines the double-ended queue of RingIter: gives the same elements, *)
(* knows its length at every moment, and once empty stays empty.           *)
(***************************************************************************)
EXTENDS RingIter
CONSTANTS MaxN
VARIABLES n, head, tail, exhausted, q, gave
vars == <<n, head, tail, exhausted, q, gave>>
Next1(i) == IF i = n - 1 THEN 0 ELSE i + 1
Prev1(i) == IF i = 0 THEN n - 1 ELSE i - 1
Init == \E k \in 0..2 : \E f \in 0..(MaxN - 1) : \E e \in 0..(MaxN - 1) :
  /\ n \in 1..MaxN
  /\ f < n /\ e < n
  /\ Defined(f + 1, k, e + 1)
  /\ head = f
  /\ tail = CASE k = 0 -> Prev1(f) [] k = 1 -> e [] OTHER -> Prev1(e)
  /\ exhausted = FALSE
  /\ q = Deque(n, f + 1, k, e + 1)
  /\ gave = <<0, 0>>
Front == IF exhausted THEN gave' = <<0, Gives(q, 1)>> /\ UNCHANGED <<head, tail, exhausted>>
         ELSE /\ gave' = <<head + 1, Gives(q, 1)>> /\ tail' = tail
              /\ IF head = tail THEN exhausted' = TRUE /\ head' = head
                 ELSE exhausted' = exhausted /\ head' = Next1(head)
Back == IF exhausted THEN gave' = <<0, Gives(q, 2)>> /\ UNCHANGED <<head, tail, exhausted>>
        ELSE /\ gave' = <<tail + 1, Gives(q, 2)>> /\ head' = head
             /\ IF head = tail THEN exhausted' = TRUE /\ tail' = tail
                ELSE exhausted' = exhausted /\ tail' = Prev1(tail)
Next == /\ n' = n
        /\ \/ Front /\ q' = After(q, 1)
           \/ Back /\ q' = After(q, 2)
Spec == Init /\ [][Next]_vars
LenNow == IF exhausted THEN 0
          ELSE IF head <= tail THEN tail - head + 1 ELSE n - head + tail + 1
LengthKnown == LenNow = Len(q)
SameElement == gave[1] = gave[2]
Fused == exhausted => q = <<>>
Content == ~exhausted => q[1] = head + 1 /\ q[Len(q)] = tail + 1
=============================================================================
