------------------------------- MODULE RayImpl -------------------------------
(***************************************************************************)
(* The perturbed ray as the code decides it: two turns of the segment's    *)
(* ends against the ray's line and one turn of the ray's origin against    *)
(* the segment; and ray casting built on it.  Every polygon over the grid  *)
(* is grown by PolyGen; then a query point on the surrounding grid is      *)
(* chosen and the boundary is walked edge by edge counting crossings.      *)
(* Invariants: each single answer is the perturbed crossing, the running   *)
(* count is the number of perturbed crossings so far, the final parity is  *)
(* the location, whichever side the ray is perturbed to.                   *)
(***************************************************************************)
EXTENDS PolyGen, RayTurns
VARIABLES q, k, left, right, res      \* query, next edge, crossings when leaning left / right
vars == <<path, q, k, left, right, res>>
NoQ == <<-9, -9>>
Around == (-1..W) \X (-1..H)

RInit == Init /\ q = NoQ /\ k = 0 /\ left = 0 /\ right = 0 /\ res = "none"
Grow == q = NoQ /\ Extend /\ UNCHANGED <<q, k, left, right, res>>
Ask == /\ q = NoQ /\ Closed
       /\ \E v \in Around : q' = v
       /\ k' = 1
       /\ UNCHANGED <<path, left, right, res>>
East == <<1, 0>>
Walk == /\ q # NoQ /\ res = "none" /\ k <= Len(path)
        /\ LET a == path[k] b == path[Nx(path, k)] r == Ray(q, East, a, b) IN
           IF OnSeg(q, a, TRUE, b, FALSE)
           THEN res' = "boundary" /\ UNCHANGED <<left, right>>
           ELSE /\ left' = left + (IF r \in {0, 1} THEN 1 ELSE 0)
                /\ right' = right + (IF r \in {0, -1} THEN 1 ELSE 0)
                /\ UNCHANGED res
        /\ k' = k + 1
        /\ UNCHANGED <<path, q>>
Done == /\ q # NoQ /\ res = "none" /\ k > Len(path)
        /\ res' = IF left % 2 = 0 THEN "outside" ELSE "inside"
        /\ UNCHANGED <<path, q, k, left, right>>
RNext == Grow \/ Ask \/ Walk \/ Done
RSpec == RInit /\ [][RNext]_vars

(* one answer, for the edges of the polygon and a few directions           *)
Dirs == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 1>>, <<-2, 1>>, <<1, -2>>, <<-1, -1>>}
Single == (q # NoQ /\ k = 1) =>
  \A i \in 1..Len(path), d \in Dirs :
    LET a == path[i] b == path[Nx(path, i)] IN
    /\ Ray(q, d, a, b) = HalfCross(q, d, a, b)
    /\ Ray(q, d, b, a) = Ray(q, d, a, b)
    \* away from the segment, the line crosses iff the ray or its opposite does, leaning right
    /\ ~OnClosed(q, a, b) =>
         LineCross(q, d, a, b) = (Ray(q, d, a, b) \in {0, -1} \/ Ray(q, Neg(d), a, b) \in {0, 1})
Right == res # "none" => res = Locate(path, q)
Parity == (res = "none" /\ k > Len(path)) => left % 2 = right % 2
=============================================================================
