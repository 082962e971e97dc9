------------------------------ MODULE StarImpl ------------------------------
(***************************************************************************)
(* Star construction: the points of every small set are taken in angular   *)
(* order around every centre (any order among ties), the resulting chain   *)
(* is offered to the polygon constructor.                                  *)
(***************************************************************************)
EXTENDS Geom, TLC
CONSTANTS W, H, MaxN
VARIABLES c, todo, ring
vars == <<c, todo, ring>>
Grid == (0..(W - 1)) \X (0..(H - 1))
X == <<1, 0>>
Init == /\ c \in Grid /\ ring = <<>>
        /\ todo \in {S \in SUBSET Grid : Cardinality(S) \in 3..MaxN}
Cmp(p, q) == AngCmp(X, Sub(p, c), Sub(q, c))
Take == \E p \in todo :
          /\ \A q \in todo : Cmp(p, q) <= 0
          /\ ring' = Append(ring, p) /\ todo' = todo \ {p} /\ UNCHANGED c
Spec == Init /\ [][Take]_vars
-----------------------------------------------------------------------------
S == RangeOf(ring)
MustWork == /\ c \notin S
            /\ \A p, q \in S : p # q => ~SameDir(Sub(p, c), Sub(q, c))
            /\ StrictlyInsideHull(S, c)
StarShaped(P) == \A i \in 1..Len(P) : Det(c, P[i], P[Nx(P, i)]) > 0
(* q on the segment from the centre to a boundary point: never outside.    *)
(* Coordinates are scaled by 6 so that thirds and halves are integer.      *)
Mul(k, P) == [i \in 1..Len(P) |-> Scale(k, P[i])]
Part(k, p) == Add(Scale(6 - k, c), Scale(k, p))
Sees(P) == \A i \in 1..Len(P) : \A k \in 0..5 :
  /\ Locate(Mul(6, P), Part(k, P[i])) = "inside"
  /\ Locate(Mul(12, P), Add(Part(k, P[i]), Part(k, P[Nx(P, i)]))) = "inside"
Done == todo = {}
Works == (Done /\ MustWork) => IsSimpleCCW(ring) /\ StarShaped(ring) /\ Locate(ring, c) = "inside" /\ Sees(ring)
(* whenever the chain happens to be simple the result is on those vertices *)
(* and the sort puts it counter-clockwise if the centre is inside the hull *)
Rest == (Done /\ IsSimple(ring) /\ StrictlyInsideHull(S, c) /\ c \notin S) => Area2(ring) > 0
=============================================================================
