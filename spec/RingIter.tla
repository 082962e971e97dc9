------------------------------ MODULE RingIter ------------------------------
(* A boundary iterator as a double-ended queue over ring positions.        *)
EXTENDS Integers, Sequences
(* kind 0: unbounded, 1: up to and including end, 2: up to but excluding   *)
Span(n, from, kind, end) ==
  IF kind = 0 THEN n
  ELSE LET d == (end - from + n) % n IN IF kind = 1 THEN d + 1 ELSE d
Deque(n, from, kind, end) ==
  [i \in 1..Span(n, from, kind, end) |-> ((from - 1 + i - 1) % n) + 1]
(* excluding the start itself is left open: empty or everything            *)
Defined(from, kind, end) == ~(kind = 2 /\ from = end)
(* op 1: from the front, op 2: from the back; 0 stands for "no more"       *)
Gives(q, op) == IF q = <<>> THEN 0 ELSE IF op = 1 THEN q[1] ELSE q[Len(q)]
After(q, op) == IF q = <<>> THEN q ELSE IF op = 1 THEN Tail(q) ELSE SubSeq(q, 1, Len(q) - 1)
(* The k-th remaining element (counting from 0) and what is left after it. *)
Nth(q, k) == IF k < Len(q) THEN q[k + 1] ELSE 0
NthBack(q, k) == IF k < Len(q) THEN q[Len(q) - k] ELSE 0
LeftAfter(q, k) == IF k < Len(q) THEN Len(q) - k - 1 ELSE 0
Place(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
(* Every way of running an iterator to its end agrees with the queue.  R   *)
(* is the ring: the identifier at each position.                           *)
Runs(R, q, f) ==
  LET n == Len(R)
      id(k) == IF k = 0 THEN 0 ELSE R[k]
      ids == [i \in 1..Len(q) |-> R[q[i]]]
      m == Len(q)
  IN /\ f.count = m
     /\ f.last = (IF m = 0 THEN 0 ELSE ids[m])
     /\ f.vec = ids
     /\ f.each = ids
     /\ f.back = [i \in 1..m |-> ids[m + 1 - i]]
     /\ f.step = [i \in 1..((m + 1) \div 2) |-> ids[2 * i - 1]]
     /\ Len(f.nth) = m + 2
     /\ \A k \in 0..(m + 1) :
          f.nth[k + 1] = << id(Nth(q, k)), LeftAfter(q, k), id(NthBack(q, k)), LeftAfter(q, k),
                            id(Nth(q, k)), id(NthBack(q, k)) >>
     /\ LET p == Place(ids, f.find[1])
            hit == IF p = 0 THEN 0 ELSE f.find[1]
        IN f.find = << f.find[1], hit, hit, p, p >>
     /\ \A i \in 1..Len(f.eqs) :
          LET e == f.eqs[i] IN e[4] = (IF Deque(n, e[1], e[2], e[3]) = q THEN 1 ELSE 0)
     /\ \A i \in 1..Len(f.edges) :
          LET e == f.edges[i]
              g(k) == IF k \in 1..n THEN << R[k], R[(k % n) + 1] >> ELSE << 0, 0 >>
          IN /\ e.lo <= n - e.j /\ e.hi >= n - e.j /\ e.count = n - e.j
             /\ e.last = g(n)
             /\ \A k \in 0..n : e.nth[k + 1] = g(e.j + k + 1)
     /\ \A i \in 1..Len(f.points) :
          LET e == f.points[i]
              g(k) == IF k \in 1..n THEN k ELSE 0
          IN /\ e.lo <= n - e.j /\ e.hi >= n - e.j /\ e.count = n - e.j
             /\ e.last = n
             /\ \A k \in 0..n : e.nth[k + 1] = g(e.j + k + 1) /\ e.muts[k + 1] = g(e.j + k + 1)
=============================================================================
