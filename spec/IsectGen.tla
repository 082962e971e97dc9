------------------------------- MODULE IsectGen -------------------------------
(* All operation histories over V vertices of length exactly L whose first  *)
(* operation is a push and which never remove an absent edge twice in a row.*)
EXTENDS IsectSet, TLC, Json
CONSTANTS V, L
VARIABLES hist, bag
Init == hist = <<>> /\ bag = Empty
(* a sub-universe with every way two intersections can share edges *)
Universe == {i \in IsectsOver(V) : Touches(i, <<1, 2>>) \/ Touches(i, <<3, 4>>)}
DoPush == \E i \in Universe : hist' = Append(hist, i) /\ bag' = Push(bag, i)
DoRemove == \E e \in EdgesOver(V) :
              /\ \E i \in Members(bag) : Touches(i, e)
              /\ hist' = Append(hist, e) /\ bag' = RemoveAll(bag, e)
Next == Len(hist) < L /\ (DoPush \/ DoRemove)
Spec == Init /\ [][Next]_<<hist, bag>>
Emit == Len(hist) = L => PrintT("GEN " \o ToJson(hist))
=============================================================================
