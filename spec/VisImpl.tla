------------------------------- MODULE VisImpl -------------------------------
(***************************************************************************)
(* The visibility polygon as the code computes it: for every simple        *)
(* polygon of a grid (scaled by S, so that centres fall between its lines  *)
(* too) and every point strictly inside, the vertices are taken in angular *)
(* order (the nearest of each direction), a left and a right leaning ray   *)
(* is shot through each at all edges, the nearest hits at or beyond the    *)
(* vertex are kept, right before left.                                     *)
(*  - no ray of a point inside misses;                                     *)
(*  - every hit kept is a corner of the visible region or lies on its edge;*)
(*  - the chain collected is the boundary of the visible region;           *)
(*  - it is a star-shaped simple polygon in counter-clockwise direction.   *)
(* A point outside the hull has a ray that misses.                         *)
(***************************************************************************)
EXTENDS PolyGen, Visible, RayTurns
CONSTANT S
VARIABLES c, k, out, res
vars == <<path, c, k, out, res>>
NoC == <<-99, -99>>
Scaled == [n \in 1..Len(path) |-> <<S * path[n][1], S * path[n][2]>>]
VInit == Init /\ c = NoC /\ k = 0 /\ out = <<>> /\ res = "none"
Grow == c = NoC /\ Extend /\ UNCHANGED <<c, k, out, res>>
Around == (-1..(S * (W - 1) + 1)) \X (-1..(S * (H - 1) + 1))
Pick == /\ c = NoC /\ Closed
        /\ \E v \in Around : /\ Locate(Scaled, v) = "inside" \/ StrictlyOutsideHull(RangeOf(Scaled), v)
                             /\ c' = v
        /\ k' = 1
        /\ UNCHANGED <<path, out, res>>

(* what the ray leaning to the given side (1 left, -1 right) hits          *)
RHit(d, lean) ==
  {MeetAt(Scaled, c, d, i) : i \in {n \in 1..Len(path) : Ray(c, d, Scaled[n], Scaled[Nx(path, n)]) = 0}}
  \cup
  {LET a == Scaled[i] b == Scaled[Nx(path, i)]
       e == IF Crs(d, Sub(a, c)) = 0 THEN a ELSE b
   IN Rat(e[1], e[2], 1) : i \in {n \in 1..Len(path) : Ray(c, d, Scaled[n], Scaled[Nx(path, n)]) = lean}}
(* how far along d: (p - c) . d = Along / p[3]                             *)
Along(d, p) == (p[1] - p[3] * c[1]) * d[1] + (p[2] - p[3] * c[2]) * d[2]
Closer(d, p, q) == Along(d, p) * q[3] <= Along(d, q) * p[3]
Nearest(d, X) == CHOOSE p \in X : \A q \in X : Closer(d, p, q)
Keep(d, p) == IF Closer(d, Rat(c[1] + d[1], c[2] + d[2], 1), p) THEN <<p>> ELSE <<>>
Dedup(s) == SelectSeq([n \in 1..Len(s) |-> IF n > 1 /\ s[n] = s[n - 1] THEN <<>> ELSE s[n]], LAMBDA x : x # <<>>)
Shoot == /\ c # NoC /\ res = "none"
         /\ LET D == Dirs(Scaled, c) IN
            IF k > Len(D) THEN res' = "some" /\ out' = Dedup(out) /\ UNCHANGED k
            ELSE LET d == D[k] r == RHit(d, -1) l == RHit(d, 1) IN
                 IF r = {} \/ l = {} THEN res' = "nothing" /\ UNCHANGED <<k, out>>
                 ELSE /\ out' = out \o Keep(d, Nearest(d, r)) \o Keep(d, Nearest(d, l))
                      /\ k' = k + 1 /\ UNCHANGED res
         /\ UNCHANGED <<path, c>>
VNext == Grow \/ Pick \/ Shoot
VSpec == VInit /\ [][VNext]_vars

Decides == res # "none" => ((res = "some") = (Locate(Scaled, c) = "inside"))
(* between the rays nothing is lost: what was kept so far are boundary     *)
(* points of the visible region, in its order                              *)
Sound == (res = "none" /\ k > 1 /\ Locate(Scaled, c) = "inside") =>
  LET B == VisBoundary(Scaled, c) IN RangeOf(out) \subseteq {B[n].p : n \in DOMAIN B}
Right == res = "some" => IsVisBoundary(Scaled, c, out)
(* directions from the centre never go back, and go round once             *)
RVec(p) == <<p[1] - p[3] * c[1], p[2] - p[3] * c[2]>>
Star == res = "some" =>
  /\ Len(out) >= 3
  /\ \A n \in 1..(Len(out) - 1) : AngCmp(<<1, 0>>, RVec(out[n]), RVec(out[n + 1])) <= 0
  /\ \A n, m \in DOMAIN out : n # m => out[n] # out[m]
  /\ \A n \in DOMAIN out : Crs(RVec(out[n]), RVec(out[Nx(out, n)])) >= 0
=============================================================================
