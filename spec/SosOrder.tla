------------------------------ MODULE SosOrder ------------------------------
(***************************************************************************)
(* Simulation of simplicity: the turn of three points on the convex curve  *)
(* i |-> (i, 2^i), as the parity of the order of the three indices, and    *)
(* the algebra of orientations (1 ccw, -1 cw, 0 colinear).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
(* parity of (a, b, c) as a rearrangement of the sorted triple             *)
Parity(a, b, c) ==
  IF (a < b /\ b < c) \/ (b < c /\ c < a) \/ (c < a /\ a < b) THEN 1 ELSE -1
Then(x, y) == IF x # 0 THEN x ELSE y
Then3(x, y, z) == IF x # 0 THEN x ELSE IF y # 0 THEN y ELSE z
RECURSIVE Lex(_)
(* lexicographic comparison from the list of component comparisons         *)
Lex(s) == IF s = <<>> THEN 0 ELSE IF s[1] # 0 THEN s[1] ELSE Lex([i \in 1..(Len(s) - 1) |-> s[i + 1]])
=============================================================================
