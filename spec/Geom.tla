-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Declarative planar geometry over integer points.                        *)
(*                                                                         *)
(* A point is a pair <<x, y>>, a vector likewise, a polygon a sequence of  *)
(* points (1-based, cyclic).  Nothing here mentions how rgeometry computes *)
(* anything: segments and regions are defined as point sets (through exact *)
(* rational parameters), location by winding numbers, hulls by separation  *)
(* and so on.  TLC integers are 32 bit, so |coordinate| stays below 10^4.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
RangeOf(s) == {s[i] : i \in DOMAIN s}

Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Neg(v) == <<-v[1], -v[2]>>
Scale(k, v) == <<k * v[1], k * v[2]>>
Crs(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Perp(v) == <<-v[2], v[1]>>
IsZero(v) == v[1] = 0 /\ v[2] = 0

(* Twice the signed area of triangle a b c. *)
Det(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
(* 1: left turn (counter-clockwise), -1: right turn, 0: colinear. *)
Turn(a, b, c) == Sgn(Det(a, b, c))
Dist2(a, b) == Dot(Sub(a, b), Sub(a, b))

LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
LexLeq(p, q) == p = q \/ LexLess(p, q)
LexMin(p, q) == IF LexLeq(p, q) THEN p ELSE q
LexMax(p, q) == IF LexLeq(p, q) THEN q ELSE p

AllColinear(S) == \A a \in S, b \in S, c \in S : Det(a, b, c) = 0

-----------------------------------------------------------------------------
(* Segments with included / excluded end points, as point sets             *)
(*   Seg(a, ai, b, bi) = { a + t (b-a) : 0 <= t <= 1,                      *)
(*                         t = 0 => ai, t = 1 => bi }                      *)
(* For a = b the two end point conditions both apply to the single point.  *)

(* tn/den (den > 0) is a legal parameter *)
UnitParam(tn, den, ai, bi) ==
  /\ tn > 0 \/ (tn = 0 /\ ai)
  /\ tn < den \/ (tn = den /\ bi)

OnSeg(p, a, ai, b, bi) ==
  IF a = b THEN p = a /\ ai /\ bi
  ELSE /\ Det(a, b, p) = 0
       /\ UnitParam(Dot(Sub(p, a), Sub(b, a)), Dist2(a, b), ai, bi)
OnClosed(p, a, b) == OnSeg(p, a, TRUE, b, TRUE)

(* The intersection of two segments:                                       *)
(*  <<>>  disjoint,  <<1>> a single crossing point of non-parallel ones,   *)
(*  <<2, lo, loIncl, hi, hiIncl>> (flattened) a shared part of one line.   *)
B2I(b) == IF b THEN 1 ELSE 0
SegIsect(a, ai, b, bi, c, ci, d, di) ==
  LET u == Sub(b, a)
      v == Sub(d, c)
      den == Crs(u, v)
  IN IF den # 0
     THEN LET s == Sgn(den)
              tn == s * Crs(Sub(c, a), v)
              un == s * Crs(Sub(c, a), u)
          IN IF UnitParam(tn, s * den, ai, bi) /\ UnitParam(un, s * den, ci, di)
             THEN <<1>> ELSE <<>>
     ELSE IF \/ Det(a, b, c) # 0 \/ Det(a, b, d) # 0
             \/ Det(c, d, a) # 0 \/ Det(c, d, b) # 0
     THEN <<>>
     ELSE \* everything on one line: intersect the parameter intervals
          LET lo == LexMax(LexMin(a, b), LexMin(c, d))
              hi == LexMin(LexMax(a, b), LexMax(c, d))
              In(p) == OnSeg(p, a, ai, b, bi) /\ OnSeg(p, c, ci, d, di)
          IN IF a = b /\ c = d /\ a # c THEN <<>>
             ELSE IF LexLess(lo, hi) \/ (lo = hi /\ In(lo))
             THEN <<2, lo[1], lo[2], B2I(In(lo)), hi[1], hi[2], B2I(In(hi))>>
             ELSE <<>>
Meets(a, ai, b, bi, c, ci, d, di) == SegIsect(a, ai, b, bi, c, ci, d, di) # <<>>
MeetsClosed(a, b, c, d) == Meets(a, TRUE, b, TRUE, c, TRUE, d, TRUE)

-----------------------------------------------------------------------------
(* Polygons *)
Nx(P, i) == IF i = Len(P) THEN 1 ELSE i + 1
Pv(P, i) == IF i = 1 THEN Len(P) ELSE i - 1
Rotate(P, k) == [i \in 1..Len(P) |-> P[((i - 1 + k) % Len(P)) + 1]]
Reversed(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
SameCycle(P, Q) ==
  /\ Len(P) = Len(Q)
  /\ IF Len(P) = 0 THEN TRUE ELSE \E k \in 0..(Len(P) - 1) : \A i \in 1..Len(P) :
        P[i] = Q[((i - 1 + k) % Len(P)) + 1]
DistinctPts(P) == \A i, j \in DOMAIN P : i # j => P[i] # P[j]

RECURSIVE SumFT(_, _, _)
SumFT(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumFT(f, a + 1, b)

(* Twice the signed area, by the shoelace sum around the first vertex. *)
Area2(P) ==
  IF Len(P) < 3 THEN 0
  ELSE SumFT([i \in 1..Len(P) |-> Det(P[1], P[i], P[Nx(P, i)])], 1, Len(P))

(* Edges i and j (i < j) of the closed chain meet only where they must:    *)
(* neighbours share exactly their common vertex, others are disjoint.      *)
EdgesOk(P, i, j) ==
  LET a == P[i] b == P[Nx(P, i)] c == P[j] d == P[Nx(P, j)]
  IN IF Nx(P, i) = j /\ Nx(P, j) = i THEN FALSE
     ELSE IF Nx(P, i) = j THEN ~Meets(a, TRUE, b, TRUE, c, FALSE, d, TRUE)
     ELSE IF Nx(P, j) = i THEN ~Meets(a, FALSE, b, TRUE, c, TRUE, d, TRUE)
     ELSE ~MeetsClosed(a, b, c, d)

IsSimple(P) ==
  /\ Len(P) >= 3
  /\ DistinctPts(P)
  /\ \A i \in 1..Len(P) : \A j \in (i + 1)..Len(P) : EdgesOk(P, i, j)
IsSimpleCCW(P) == IsSimple(P) /\ Area2(P) > 0

(* Point location in a simple polygon: winding number of the boundary,     *)
(* counted by upward / downward crossings of the horizontal ray.           *)
OnBoundary(P, q) == \E i \in 1..Len(P) : OnClosed(q, P[i], P[Nx(P, i)])
Winding(P, q) ==
  SumFT([i \in 1..Len(P) |->
          LET a == P[i] b == P[Nx(P, i)]
          IN IF a[2] <= q[2] /\ b[2] > q[2] /\ Det(a, b, q) > 0 THEN 1
             ELSE IF b[2] <= q[2] /\ a[2] > q[2] /\ Det(a, b, q) < 0 THEN -1
             ELSE 0], 1, Len(P))
Locate(P, q) ==
  IF OnBoundary(P, q) THEN "boundary"
  ELSE IF Winding(P, q) # 0 THEN "inside" ELSE "outside"

(* Strictly convex counter-clockwise polygon. Every vertex lies strictly   *)
(* to the left of every edge line it is not on.                            *)
StrictlyConvexCCW(P) ==
  /\ Len(P) >= 3
  /\ \A i \in 1..Len(P) : \A j \in 1..Len(P) :
        (j # i /\ j # Nx(P, i)) => Det(P[i], P[Nx(P, i)], P[j]) > 0
(* H is the strictly convex hull of the (finite, non-colinear) set S. *)
IsHullOf(H, S) ==
  /\ StrictlyConvexCCW(H)
  /\ RangeOf(H) \subseteq S
  /\ \A p \in S : \A i \in 1..Len(H) : Det(H[i], H[Nx(H, i)], p) >= 0
(* q strictly inside / strictly outside the convex hull of S               *)
(* separated: some line through two hull points has q strictly right of it *)
StrictlyOutsideHull(S, q) ==
  \/ \E a, b \in S : a # b /\ Det(a, b, q) < 0 /\ \A p \in S : Det(a, b, p) >= 0
  \/ AllColinear(S \cup {q}) /\ \A a, b \in S : ~OnClosed(q, a, b)
StrictlyInsideHull(S, q) ==
  /\ ~AllColinear(S)
  /\ \A a, b \in S : (a # b /\ \A p \in S : Det(a, b, p) >= 0) => Det(a, b, q) > 0

-----------------------------------------------------------------------------
(* Angles: half-plane + cross product comparison, starting at direction d. *)
(* The zero vector counts as angle zero.                                   *)
AngHalf(d, v) == \* 0: angle 0, 1: (0,pi), 2: pi, 3: (pi, 2pi)
  LET c == Crs(d, v) IN
  IF IsZero(v) THEN 0
  ELSE IF c > 0 THEN 1
  ELSE IF c < 0 THEN 3
  ELSE IF Dot(d, v) > 0 THEN 0 ELSE 2
(* -1 / 0 / 1: order of the angles of u and v measured ccw from d *)
AngCmp(d, u, v) ==
  LET hu == AngHalf(d, u) hv == AngHalf(d, v)
  IN IF hu # hv THEN Sgn(hu - hv)
     ELSE IF hu \in {0, 2} THEN 0
     ELSE -Sgn(Crs(u, v))
SameDir(u, v) == Crs(u, v) = 0 /\ Dot(u, v) > 0

-----------------------------------------------------------------------------
(* Monotonicity along a direction: the cyclic sequence of projections has  *)
(* at most one maximal descent and one maximal ascent (weakly).            *)
IsMonotone(P, d) ==
  LET n == Len(P)
      k == [i \in 1..n |-> Dot(P[i], d)]
  IN \E s \in 1..n, m \in 0..n :
       LET at(j) == k[((s - 1 + j) % n) + 1]
       IN /\ \A j \in 0..(m - 1) : at(j) <= at(j + 1)
          /\ \A j \in m..(n - 1) : at(j) >= at(j + 1)

(* Ears *)
InClosedTri(q, a, b, c) ==
  /\ Det(a, b, q) >= 0 /\ Det(b, c, q) >= 0 /\ Det(c, a, q) >= 0
IsEar(P, i) ==
  LET a == P[Pv(P, i)] b == P[i] c == P[Nx(P, i)]
  IN /\ Det(a, b, c) > 0
     /\ \A j \in 1..Len(P) :
          (j # i /\ j # Pv(P, i) /\ j # Nx(P, i)) => ~InClosedTri(P[j], a, b, c)

(* A triangulation certificate: T is a sequence of triples of vertex       *)
(* indices of P.                                                           *)
TriEdges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
IsTriangulation(P, T) ==
  LET n == Len(P)
      area(t) == Det(P[t[1]], P[t[2]], P[t[3]])
      uses(a, b) == Cardinality({i \in DOMAIN T : <<a, b>> \in TriEdges(T[i])})
      all == UNION {TriEdges(T[i]) : i \in DOMAIN T}
  IN /\ Len(T) = n - 2
     /\ \A i \in DOMAIN T : /\ Len(T[i]) = 3
                            /\ \A k \in 1..3 : T[i][k] \in 1..n
                            /\ area(T[i]) > 0
     /\ \A i \in 1..n : uses(i, Nx(P, i)) = 1
     /\ \A e \in all : /\ uses(e[1], e[2]) = 1
                       /\ (e[2] # (IF e[1] = n THEN 1 ELSE e[1] + 1)) => uses(e[2], e[1]) = 1
     /\ SumFT([i \in 1..Len(T) |-> area(T[i])], 1, Len(T)) = Area2(P)
=============================================================================
