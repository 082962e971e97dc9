------------------------------ MODULE IsectSet ------------------------------
(***************************************************************************)
(* The abstract multiset of intersections, indexed by edge.                *)
(* An edge is a pair <<a, b>> with a < b; an intersection a pair of        *)
(* distinct edges in lexicographic order, flattened to <<a, b, c, d>>.     *)
(* The bag maps each member to its multiplicity (>= 1).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
EdgesOver(n) == {<<a, b>> \in (1..n) \X (1..n) : a < b}
PairLess(e, f) == e[1] < f[1] \/ (e[1] = f[1] /\ e[2] < f[2])
IsectsOver(n) == {<<p[1][1], p[1][2], p[2][1], p[2][2]>> :
                  p \in {q \in EdgesOver(n) \X EdgesOver(n) : PairLess(q[1], q[2])}}
Touches(i, e) == <<i[1], i[2]>> = e \/ <<i[3], i[4]>> = e

Empty == <<>>
Members(bag) == DOMAIN bag
Count(bag, i) == IF i \in DOMAIN bag THEN bag[i] ELSE 0
Push(bag, i) == [j \in DOMAIN bag \cup {i} |-> Count(bag, j) + IF i = j THEN 1 ELSE 0]
RemoveAll(bag, e) == [j \in {k \in DOMAIN bag : ~Touches(k, e)} |-> bag[j]]
(* a list enumerates the bag *)
Enumerates(list, bag) ==
  /\ \A k \in DOMAIN list : list[k] \in DOMAIN bag
  /\ \A i \in DOMAIN bag : Cardinality({k \in DOMAIN list : list[k] = i}) = bag[i]
=============================================================================
