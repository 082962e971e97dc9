------------------------------ MODULE AreaImpl ------------------------------
(***************************************************************************)
(* Area, centroid and bounding box as accumulated by the code edge by edge *)
(* (cross products from the origin, corners weighted by them, running      *)
(* minima and maxima), for every simple polygon of a grid, from every      *)
(* first vertex, moved to different places, in both directions.            *)
(*  - the area is independent of place and first vertex, positive exactly  *)
(*    for counter-clockwise rings;                                         *)
(*  - Pick: area and point location agree, 2A = 2 * inside + boundary - 2  *)
(*    over lattice points;                                                 *)
(*  - the centroid is that of the fan of triangles from any vertex;        *)
(*  - cutting an ear off subtracts the ear: areas and moments are additive;*)
(*  - the box is the least one.                                            *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS W, H, MaxN
VARIABLES path, phase, k, area, mom, box
vars == <<path, phase, k, area, mom, box>>
Grid == (0..(W - 1)) \X (0..(H - 1))
Init == /\ \E s \in Grid : path = <<s>>
        /\ phase = "draw" /\ k = 0 /\ area = 0 /\ mom = <<0, 0>> /\ box = <<>>
Free(v) ==
  LET n == Len(path) IN
  \A i \in 1..(n - 1) :
    IF i = n - 1 THEN ~Meets(path[i], TRUE, path[n], TRUE, path[n], FALSE, v, TRUE)
    ELSE ~MeetsClosed(path[i], path[i + 1], path[n], v)
Extend == /\ phase = "draw" /\ Len(path) < MaxN
          /\ \E v \in Grid : /\ LexLess(path[1], v) /\ v \notin RangeOf(path) /\ Free(v)
                             /\ path' = Append(path, v)
          /\ UNCHANGED <<phase, k, area, mom, box>>
Moves == {<<0, 0>>, <<-7, 11>>}
Start == /\ phase = "draw" /\ IsSimple(path)
         /\ \E m \in Moves : \E r \in {0, Len(path) - 1} :
              path' = [i \in 1..Len(path) |-> Add(Rotate(path, r)[i], m)]
         /\ phase' = "sum" /\ k' = 1
         /\ box' = <<path'[1][1], path'[1][2], path'[1][1], path'[1][2]>>
         /\ UNCHANGED <<area, mom>>
Sum == /\ phase = "sum"
       /\ LET p == path[k] q == path[Nx(path, k)] c == p[1] * q[2] - q[1] * p[2]
          IN /\ area' = area + c
             /\ mom' = Add(mom, Scale(c, Add(p, q)))
             /\ box' = <<Min2(box[1], p[1]), Min2(box[2], p[2]), Max2(box[3], p[1]), Max2(box[4], p[2])>>
       /\ IF k = Len(path) THEN phase' = "done" /\ k' = k ELSE phase' = phase /\ k' = k + 1
       /\ UNCHANGED path
Next == Extend \/ Start \/ Sum
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == phase = "done"
RECURSIVE Fan(_, _, _, _)
Fan(P, s, a, i) == \* sum of Det * (sum of corners), axis a, fan from vertex s
  IF i >= Len(P) THEN 0
  ELSE LET R == Rotate(P, s - 1) IN Det(R[1], R[i], R[i + 1]) * (R[1][a] + R[i][a] + R[i + 1][a]) + Fan(P, s, a, i + 1)
AreaRight == Done => area = Area2(path)
Direction ==
  Done => LET m == CHOOSE i \in 1..Len(path) : \A j \in 1..Len(path) : LexLeq(path[i], path[j])
          IN Sgn(area) = Turn(path[Pv(path, m)], path[m], path[Nx(path, m)])
Lattice == {<<x, y>> : x \in (box[1] - 1)..(box[3] + 1), y \in (box[2] - 1)..(box[4] + 1)}
Pick == Done =>
  Abs(area) = 2 * Cardinality({q \in Lattice : Locate(path, q) = "inside"})
              + Cardinality({q \in Lattice : Locate(path, q) = "boundary"}) - 2
CentroidRight == Done => \A a \in 1..2 : \A s \in {1, Len(path)} : mom[a] = Fan(path, s, a, 2)
Drop(P, i) == [j \in 1..(Len(P) - 1) |-> IF j < i THEN P[j] ELSE P[j + 1]]
Additive == (Done /\ area > 0 /\ Len(path) > 3) =>
  \A i \in 1..Len(path) : IsEar(path, i) =>
    LET d == Det(path[Pv(path, i)], path[i], path[Nx(path, i)]) Q == Drop(path, i)
    IN /\ area = d + Area2(Q)
       /\ \A a \in 1..2 : mom[a] = d * (path[Pv(path, i)][a] + path[i][a] + path[Nx(path, i)][a]) + Fan(Q, 1, a, 2)
BoxLeast == Done =>
  /\ \A i \in 1..Len(path) : /\ path[i][1] \in box[1]..box[3] /\ path[i][2] \in box[2]..box[4]
  /\ \A a \in 1..2 : box[a] \in {path[i][a] : i \in 1..Len(path)} /\ box[a + 2] \in {path[i][a] : i \in 1..Len(path)}
(* the centroid of a strictly convex polygon lies strictly inside it; the  *)
(* point with homogeneous coordinates (mom, 3 * area)                      *)
Within == (Done /\ StrictlyConvexCCW(path)) =>
  LET n == Len(path) S == [i \in 1..n |-> Scale(3 * area, path[i])]
  IN \A i \in 1..n : Det(S[i], S[Nx(S, i)], mom) > 0
=============================================================================
