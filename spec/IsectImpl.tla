------------------------------ MODULE IsectImpl ------------------------------
(***************************************************************************)
(* The concrete structure behind the intersection set: a sparse vector of  *)
(* nodes with a free list and a dense index (swap-remove), and per edge a  *)
(* doubly linked list threaded through the nodes' two edge slots.          *)
(* Checked: well-formed after every operation, and a refinement of the     *)
(* abstract multiset (each concrete step is the abstract step).            *)
(***************************************************************************)
EXTENDS IsectSet, TLC
CONSTANTS V, MaxNodes
VARIABLES arr,    \* slot -> [i |-> isect, n1, p1, n2, p2]  (0 = none)
          free,   \* stack of free slots
          dense,  \* sequence of live slots
          head,   \* edge -> first slot or 0
          bag     \* abstract state, carried along
vars == <<arr, free, dense, head, bag>>

E1(i) == <<i[1], i[2]>>
E2(i) == <<i[3], i[4]>>
Nxt(a, s, e) == IF E1(a[s].i) = e THEN a[s].n1 ELSE a[s].n2
Prv(a, s, e) == IF E1(a[s].i) = e THEN a[s].p1 ELSE a[s].p2
SetNxt(a, s, e, x) == IF E1(a[s].i) = e THEN [a EXCEPT ![s].n1 = x] ELSE [a EXCEPT ![s].n2 = x]
SetPrv(a, s, e, x) == IF E1(a[s].i) = e THEN [a EXCEPT ![s].p1 = x] ELSE [a EXCEPT ![s].p2 = x]

Init == /\ arr = <<>> /\ free = <<>> /\ dense = <<>>
        /\ head = [e \in EdgesOver(V) |-> 0] /\ bag = Empty

LinkIn(st, s, e) == \* push slot s to the front of e's list
  LET h == st.head[e]
      a1 == IF h = 0 THEN st.arr ELSE SetNxt(SetPrv(st.arr, h, e, s), s, e, h)
  IN [arr |-> a1, head |-> [st.head EXCEPT ![e] = s]]
PushOp(i) ==
  LET s == IF free = <<>> THEN Len(arr) + 1 ELSE free[Len(free)]
      node == [i |-> i, n1 |-> 0, p1 |-> 0, n2 |-> 0, p2 |-> 0]
      a0 == IF free = <<>> THEN Append(arr, node) ELSE [arr EXCEPT ![s] = node]
      r == LinkIn(LinkIn([arr |-> a0, head |-> head], s, E1(i)), s, E2(i))
  IN /\ arr' = r.arr /\ head' = r.head
     /\ free' = IF free = <<>> THEN free ELSE SubSeq(free, 1, Len(free) - 1)
     /\ dense' = Append(dense, s)
     /\ bag' = Push(bag, i)

Unlink(st, s, e) ==
  LET p == Prv(st.arr, s, e) n == Nxt(st.arr, s, e)
      h1 == IF p = 0 THEN [st.head EXCEPT ![e] = n] ELSE st.head
      a1 == IF p = 0 THEN st.arr ELSE SetNxt(st.arr, p, e, n)
      a2 == IF n = 0 THEN a1 ELSE SetPrv(a1, n, e, p)
  IN [arr |-> a2, head |-> h1]
SwapRemove(d, s) ==
  LET k == CHOOSE k \in DOMAIN d : d[k] = s
  IN [j \in 1..(Len(d) - 1) |-> IF j = k THEN d[Len(d)] ELSE d[j]]
Dead == [i |-> <<0, 0, 0, 0>>, n1 |-> 0, p1 |-> 0, n2 |-> 0, p2 |-> 0]
RECURSIVE Drain(_, _)
Drain(st, e) ==
  LET s == st.head[e] IN
  IF s = 0 THEN st
  ELSE LET i == st.arr[s].i
           r == Unlink(Unlink([arr |-> st.arr, head |-> st.head], s, E1(i)), s, E2(i))
       IN Drain([arr |-> [r.arr EXCEPT ![s] = Dead], head |-> r.head, free |-> Append(st.free, s), dense |-> SwapRemove(st.dense, s)], e)
RemoveOp(e) ==
  LET r == Drain([arr |-> arr, head |-> head, free |-> free, dense |-> dense], e)
  IN /\ arr' = r.arr /\ head' = r.head /\ free' = r.free /\ dense' = r.dense
     /\ bag' = RemoveAll(bag, e)
Next == \/ Len(dense) < MaxNodes /\ \E i \in IsectsOver(V) : PushOp(i)
        \/ \E e \in EdgesOver(V) : RemoveOp(e)
Spec == Init /\ [][Next]_vars

Live == {dense[k] : k \in DOMAIN dense}
AbsBag == [i \in {arr[s].i : s \in Live} |-> Cardinality({s \in Live : arr[s].i = i})]
Refines == AbsBag = bag
WellFormed ==
  /\ Cardinality(Live) = Len(dense)
  /\ Live \cap {free[k] : k \in DOMAIN free} = {}
  /\ Live \cup {free[k] : k \in DOMAIN free} = DOMAIN arr
  /\ \A e \in EdgesOver(V) :
       /\ (head[e] = 0) <=> ~\E s \in Live : Touches(arr[s].i, e)
       /\ head[e] # 0 => head[e] \in Live /\ Prv(arr, head[e], e) = 0
       /\ \A s \in Live : Touches(arr[s].i, e) =>
            /\ Nxt(arr, s, e) # 0 => Nxt(arr, s, e) \in Live /\ Prv(arr, Nxt(arr, s, e), e) = s
            /\ Prv(arr, s, e) # 0 => Prv(arr, s, e) \in Live /\ Nxt(arr, Prv(arr, s, e), e) = s
            /\ Prv(arr, s, e) = 0 => head[e] = s
=============================================================================
