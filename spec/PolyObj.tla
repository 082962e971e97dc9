------------------------------- MODULE PolyObj -------------------------------
(***************************************************************************)
(* A polygon object: points by identifier and the boundary ring (a cyclic  *)
(* sequence of identifiers). Transitions are the public operations that    *)
(* change it; Shows is everything an observer can read off a state.        *)
(***************************************************************************)
EXTENDS Geom
At(pts, ring, i) == pts[ring[i]]
Bnd(pts, ring) == [i \in 1..Len(ring) |-> pts[ring[i]]]
PosOf(ring, id) == CHOOSE i \in 1..Len(ring) : ring[i] = id
IsRing(pts, ring) == Len(ring) = Len(pts) /\ RangeOf(ring) = 1..Len(pts)
LexLeast(pts) == CHOOSE i \in 1..Len(pts) : \A j \in 1..Len(pts) : LexLeq(pts[i], pts[j])
Corner(pts, ring, id) ==
  LET i == PosOf(ring, id) IN Turn(At(pts, ring, Pv(ring, i)), pts[id], At(pts, ring, Nx(ring, i)))

(* operations: the set of allowed <<error?, new ring>> results             *)
EnsureCcw(pts, ring, err, ring2) ==
  LET c == Corner(pts, ring, LexLeast(pts)) IN
  CASE c = 1 -> err = "" /\ ring2 = ring
    [] c = 0 -> err = "CoLinearViolation" /\ ring2 = ring
    [] OTHER -> err = "" /\ SameCycle(ring2, Reversed(ring))
Untangle(pts, ring, err, ring2) ==
  IF AllColinear(RangeOf(pts)) THEN err # ""
  ELSE err = "" /\ IsRing(pts, ring2) /\ IsSimpleCCW(Bnd(pts, ring2))
Swapped(pts) == [i \in 1..Len(pts) |-> <<pts[i][2], pts[i][1]>>]

(* observations                                                            *)
Shows(pts, ring, o) ==
  LET n == Len(ring) IN
  /\ o.slice = ring
  /\ Len(o.self) = n /\ Len(o.nxt) = n /\ Len(o.prv) = n /\ Len(o.pt) = n /\ Len(o.cpt) = n /\ Len(o.cor) = n
  /\ \A id \in 1..n :
       LET i == PosOf(ring, id) IN
       /\ o.self[id] = id
       /\ o.nxt[id] = ring[Nx(ring, i)] /\ o.prv[id] = ring[Pv(ring, i)]
       /\ o.pt[id] = pts[id] /\ o.cpt[id] = pts[id]
       /\ o.cor[id] = Corner(pts, ring, id)
  /\ o.it = ring
  /\ o.rev = Reversed(ring)
  /\ o.all = pts
  /\ Len(o.edges) = n
  /\ \A i \in 1..n : o.edges[i] = <<At(pts, ring, i), At(pts, ring, Nx(ring, i))>>
  /\ Len(o.dir) = n /\ \A a \in 1..n : Len(o.dir[a]) = n
  \* o.dir[a][b]: source of the directed edge between a and b, 0 if not an edge
  /\ \A a, b \in 1..n : a # b =>
       LET i == PosOf(ring, a) j == PosOf(ring, b) IN
       o.dir[a][b] = IF Nx(ring, i) = j THEN a ELSE IF Nx(ring, j) = i THEN b ELSE 0
=============================================================================
