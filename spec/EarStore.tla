------------------------------ MODULE EarStore ------------------------------
(***************************************************************************)
(* The bookkeeping of ear clipping over every simple polygon of a grid:    *)
(* a store of possible ears from which any member may be drawn; a member   *)
(* that is no ear is dropped, clipping an ear puts its neighbours back.    *)
(* Checked: the store always holds every ear of what is left (so it never  *)
(* runs dry), every draw leaves a simple polygon, the walk over the ring   *)
(* and the walk over the z-order curve decide "ear" alike, the run ends    *)
(* with two vertices after n - 2 triangles.                                *)
(***************************************************************************)
EXTENDS PolyGen, EarClip, SequencesExt
VARIABLES rem, cand, tris, st
vars == <<path, rem, cand, tris, st>>

EInit == Init /\ rem = <<>> /\ cand = {} /\ tris = <<>> /\ st = "grow"
Grow == st = "grow" /\ Extend /\ UNCHANGED <<rem, cand, tris, st>>
Start == /\ st = "grow" /\ Closed
         /\ rem' = [i \in 1..Len(path) |-> i]
         /\ cand' = 1..Len(path)
         /\ st' = "clip" /\ UNCHANGED <<path, tris>>

Pos(r, v) == CHOOSE k \in 1..Len(r) : r[k] = v
(* the ring walk: any vertex from the one after next up to the one before  *)
(* previous inside or on the triangle                                      *)
TriLoc(a, b, c, q) ==
  LET t == {Turn(a, b, q), Turn(b, c, q), Turn(c, a, q)} IN -1 \notin t
RingEar(r, k) ==
  LET a == path[r[Pv(r, k)]] b == path[r[k]] c == path[r[Nx(r, k)]] n == Len(r)
  IN /\ Turn(a, b, c) = 1
     /\ \A j \in 2..(n - 2) : ~TriLoc(a, b, c, path[r[((k - 1 + j) % n) + 1]])
(* the curve walk: neighbours along the sorted codes, upwards and          *)
(* downwards, as long as their code lies between those of the box corners  *)
Code(p) == LET x == p[1] y == p[2] IN
  (x % 2) + 2 * (y % 2) + 4 * ((x \div 2) % 2) + 8 * ((y \div 2) % 2)
Curve == SetToSortSeq(RangeOf(rem), LAMBDA i, j : Code(path[i]) < Code(path[j]))
RECURSIVE WalkUp(_, _, _, _, _), WalkDown(_, _, _, _, _)
WalkUp(s, i, lo, hi, tri) ==
  IF i > Len(s) \/ Code(path[s[i]]) < lo \/ Code(path[s[i]]) > hi THEN TRUE
  ELSE IF s[i] \notin RangeOf(tri) /\ TriLoc(path[tri[1]], path[tri[2]], path[tri[3]], path[s[i]]) THEN FALSE
  ELSE WalkUp(s, i + 1, lo, hi, tri)
WalkDown(s, i, lo, hi, tri) ==
  IF i < 1 \/ Code(path[s[i]]) < lo \/ Code(path[s[i]]) > hi THEN TRUE
  ELSE IF s[i] \notin RangeOf(tri) /\ TriLoc(path[tri[1]], path[tri[2]], path[tri[3]], path[s[i]]) THEN FALSE
  ELSE WalkDown(s, i - 1, lo, hi, tri)
Box(t) == LET X == {path[t[i]][1] : i \in 1..3} Y == {path[t[i]][2] : i \in 1..3}
              lo(S) == CHOOSE x \in S : \A y \in S : x <= y
              hi(S) == CHOOSE x \in S : \A y \in S : x >= y
          IN <<<<lo(X), lo(Y)>>, <<hi(X), hi(Y)>>>>
CurveEar(r, k) ==
  LET t == TriAt(r, k) s == Curve b == Box(t) lo == Code(b[1]) hi == Code(b[2])
      i == CHOOSE j \in 1..Len(s) : s[j] = r[k]
  IN /\ Turn(path[t[1]], path[t[2]], path[t[3]]) = 1
     /\ WalkUp(s, i + 1, lo, hi, t) /\ WalkDown(s, i - 1, lo, hi, t)

Draw == /\ st = "clip" /\ Len(rem) >= 3
        /\ \E v \in cand :
             LET k == Pos(rem, v) IN
             IF RingEar(rem, k)
             THEN /\ cand' = (cand \ {v}) \cup {rem[Pv(rem, k)], rem[Nx(rem, k)]}
                  /\ rem' = Without(rem, k)
                  /\ tris' = Append(tris, TriAt(rem, k))
             ELSE cand' = cand \ {v} /\ UNCHANGED <<rem, tris>>
        /\ UNCHANGED <<path, st>>
Finish == /\ st = "clip" /\ Len(rem) < 3
          /\ st' = "done" /\ UNCHANGED <<path, rem, cand, tris>>
ENext == Grow \/ Start \/ Draw \/ Finish
ESpec == EInit /\ [][ENext]_vars
-----------------------------------------------------------------------------
Ears == {k \in 1..Len(rem) : IsEar(Pts(path, rem), k)}
Clipping == st = "clip" /\ Len(rem) >= 3
(* Meisters: a simple polygon with more than three vertices has two ears   *)
(* that are not neighbours                                                 *)
TwoEars == (Clipping /\ Len(rem) > 3) =>
  \E i, j \in Ears : i # j /\ Nx(rem, i) # j /\ Nx(rem, j) # i
Complete == Clipping => \A k \in Ears : rem[k] \in cand
NeverDry == Clipping => cand # {}
Simple == Clipping => IsSimpleCCW(Pts(path, rem))
Decides == Clipping => \A k \in 1..Len(rem) :
  /\ RingEar(rem, k) = IsEar(Pts(path, rem), k)
  /\ CurveEar(rem, k) = IsEar(Pts(path, rem), k)
Result == st = "done" => IsTriangulation(path, tris)
(* every run ends: a draw shrinks the store or the ring                    *)
Measure == Len(rem) * (2 * Len(path) + 2) + Cardinality(cand)
Shrinks == [][(st = "clip" /\ st' = "clip") => Measure' < Measure]_vars
=============================================================================
