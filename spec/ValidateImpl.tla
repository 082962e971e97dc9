---------------------------- MODULE ValidateImpl ----------------------------
(***************************************************************************)
(* Construction and validation as the code does it, for every list of grid *)
(* points (up to K with repetitions, up to MaxN without): the direction is *)
(* the turn at the lexicographically first vertex, a clockwise chain is    *)
(* reversed, then repeated points are looked for, then pairs of half open  *)
(* edges (source included, target excluded) that meet, one pair a step.    *)
(*  - a list is accepted exactly when the closed chain is simple;          *)
(*  - the ring is then the chain in counter-clockwise direction;           *)
(*  - each error is true of the list;                                      *)
(*  - the turn at the first vertex is the sign of the area of a simple one *)
(*  - all corners left turns and accepted = strictly convex.               *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS W, H, K, MaxN
VARIABLES ps, ring, pc, i, j, res
vars == <<ps, ring, pc, i, j, res>>
Grid == (0..(W - 1)) \X (0..(H - 1))
Init == ps = <<>> /\ ring = <<>> /\ pc = "draw" /\ i = 0 /\ j = 0 /\ res = "none"
Draw == /\ pc = "draw" /\ Len(ps) < MaxN
        /\ \E v \in Grid : /\ Len(ps) < K \/ DistinctPts(Append(ps, v))
                           /\ ps' = Append(ps, v)
        /\ UNCHANGED <<ring, pc, i, j, res>>
End(r) == pc' = "done" /\ res' = r /\ UNCHANGED <<ps, i, j>>
Lowest(P) == \* the first of the least vertices
  CHOOSE k \in 1..Len(P) : /\ \A m \in 1..Len(P) : LexLeq(P[k], P[m])
                           /\ \A m \in 1..(k - 1) : P[m] # P[k]
Dir(P) == LET k == Lowest(P) IN Turn(P[Pv(P, k)], P[k], P[Nx(P, k)])
Start == /\ pc = "draw"
         /\ IF Len(ps) < 3 THEN End("InsufficientVertices") /\ UNCHANGED ring
            ELSE IF Dir(ps) = 0 THEN End("CoLinearViolation") /\ UNCHANGED ring
            ELSE /\ ring' = IF Dir(ps) = 1 THEN ps ELSE Reversed(ps)
                 /\ pc' = "dups" /\ UNCHANGED <<ps, i, j, res>>
Dups == /\ pc = "dups" /\ UNCHANGED ring
        /\ IF ~DistinctPts(ps) THEN End("DuplicatePoints")
           ELSE IF Dir(ring) # 1 THEN End("ClockWiseViolation")
           ELSE pc' = "edges" /\ i' = 2 /\ j' = 1 /\ UNCHANGED <<ps, res>>
Edges == /\ pc = "edges" /\ UNCHANGED ring
         /\ IF i > Len(ring) THEN End("ok")
            ELSE IF Meets(ring[i], TRUE, ring[Nx(ring, i)], FALSE, ring[j], TRUE, ring[Nx(ring, j)], FALSE)
            THEN End("SelfIntersections")
            ELSE /\ IF j + 1 < i THEN i' = i /\ j' = j + 1 ELSE i' = i + 1 /\ j' = 1
                 /\ UNCHANGED <<ps, pc, res>>
Next == Draw \/ Start \/ Dups \/ Edges
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Exact == Done => ((res = "ok") = IsSimple(ps))
Oriented == (Done /\ res = "ok") =>
  /\ Area2(ring) > 0
  /\ SameCycle(ring, IF Area2(ps) > 0 THEN ps ELSE Reversed(ps))
Truthful == Done =>
  CASE res = "InsufficientVertices" -> Len(ps) < 3
    [] res = "DuplicatePoints" -> ~DistinctPts(ps)
    [] res \in {"SelfIntersections", "CoLinearViolation"} -> Len(ps) >= 3 /\ ~IsSimple(ps)
    [] OTHER -> res = "ok"                                \* no other error on construction
DirIsArea == (Done /\ Len(ps) >= 3 /\ IsSimple(ps)) => Dir(ps) = Sgn(Area2(ps))
Convex == (Done /\ res = "ok") =>
  ((\A k \in 1..Len(ring) : Turn(ring[Pv(ring, k)], ring[k], ring[Nx(ring, k)]) = 1) = StrictlyConvexCCW(ring))
(* left turns everywhere are not enough without simplicity: the machine    *)
(* needs its second part for convex polygons too                           *)
=============================================================================
