---------------------------- MODULE ConvexLocate ----------------------------
(***************************************************************************)
(* Point location in a convex polygon by binary search over the fan of     *)
(* triangles at the first vertex, step by step, for every strictly convex  *)
(* polygon over a grid (grown vertex by vertex) and every query point on a *)
(* grid one larger all around.  Invariants: the wedge between lower and    *)
(* upper keeps the query, the number of predicates stays logarithmic, and  *)
(* the answer is the location in the polygon.                              *)
(***************************************************************************)
EXTENDS Geom, Work
CONSTANTS W, H, MaxN
VARIABLES P, q, lower, upper, work, res
vars == <<P, q, lower, upper, work, res>>
Grid == (0..(W - 1)) \X (0..(H - 1))
Around == (-1..W) \X (-1..H)
NoQ == <<-9, -9>>

Init == /\ \E s \in Grid : P = <<s>>
        /\ q = NoQ /\ lower = 0 /\ upper = 0 /\ work = 0 /\ res = "none"
Convex(S) == \A i, j, k \in 1..Len(S) : i < j /\ j < k => Det(S[i], S[j], S[k]) > 0
Grow == /\ q = NoQ /\ Len(P) < MaxN
        /\ \E v \in Grid :
             /\ IF Len(P) = 1 THEN v # P[1] ELSE Convex(Append(P, v))
             /\ P' = Append(P, v)
        /\ UNCHANGED <<q, lower, upper, work, res>>
Ask == /\ q = NoQ /\ Len(P) >= 3
       /\ \E v \in Around : q' = v
       /\ lower' = 2 /\ upper' = Len(P)
       /\ UNCHANGED <<P, work, res>>
Search == /\ q # NoQ /\ res = "none" /\ lower + 1 < upper
          /\ LET m == (lower + upper) \div 2
             IN IF Turn(P[1], P[m], q) = 1
                THEN lower' = m /\ UNCHANGED upper
                ELSE upper' = m /\ UNCHANGED lower
          /\ work' = work + 1
          /\ UNCHANGED <<P, q, res>>
InTri(a, b, c) ==
  LET t == {Turn(a, b, q), Turn(b, c, q), Turn(c, a, q)}
  IN IF -1 \in t THEN "outside" ELSE IF 0 \in t THEN "boundary" ELSE "inside"
Answer == /\ q # NoQ /\ res = "none" /\ lower + 1 = upper
          /\ LET a == P[1] b == P[lower] c == P[upper] t == InTri(a, b, c)
             IN res' = IF /\ t = "boundary" /\ upper < Len(P)
                          /\ Turn(a, b, q) = 1 /\ Turn(b, c, q) = 1
                       THEN "inside" ELSE t
          /\ work' = work + 8
          /\ UNCHANGED <<P, q, lower, upper>>
Next == Grow \/ Ask \/ Search \/ Answer
Spec == Init /\ [][Next]_vars

Right == res # "none" => res = Locate(P, q)
(* q strictly left of the fan's diagonal to lower, not strictly left of the *)
(* one to upper, whenever these have been looked at                        *)
Wedge == q # NoQ => /\ 2 <= lower /\ lower < upper /\ upper <= Len(P)
                    /\ lower > 2 => Turn(P[1], P[lower], q) = 1
                    /\ upper < Len(P) => Turn(P[1], P[upper], q) # 1
Cheap == work <= WorkBound("convex-locate", Len(P), 0)
(* the interval halves: what is left of the search never exceeds the log    *)
Halving == (q # NoQ /\ res = "none") => work + Log2Up(upper - lower) <= Log2Up(Len(P) - 2) + 1
=============================================================================
