------------------------------ MODULE Visible ------------------------------
(***************************************************************************)
(* The region of a simple polygon visible from a strictly interior point,  *)
(* wedge by wedge: between two angularly consecutive vertex directions no  *)
(* vertex interrupts the view, so exactly one edge is seen.                *)
(* Rational points are reduced triples <<x, y, w>> meaning (x/w, y/w).     *)
(***************************************************************************)
EXTENDS Geom
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(x, y, w) ==
  LET s == IF w < 0 THEN -1 ELSE 1
      g == Gcd(Gcd(Abs(x), Abs(y)), Abs(w))
  IN <<(s * x) \div g, (s * y) \div g, (s * w) \div g>>

(* the distinct directions from c to the vertices, nearest representative, *)
(* in counter-clockwise order from the positive x axis                     *)
Dirs(P, c) ==
  LET D == {Sub(P[i], c) : i \in 1..Len(P)}
      Near(v) == \A u \in D : SameDir(u, v) => Dot(v, v) <= Dot(u, u)
      R == {v \in D : Near(v)}
      Rank(v) == Cardinality({u \in R : AngCmp(<<1, 0>>, u, v) < 0})
  IN [k \in 1..Cardinality(R) |-> CHOOSE v \in R : Rank(v) = k - 1]

(* edges properly crossed by the ray from c along m                        *)
Crosses(P, c, m, i) ==
  LET a == Sub(P[i], c) b == Sub(P[Nx(P, i)], c)
      sa == Sgn(Crs(m, a)) sb == Sgn(Crs(m, b))
  IN sa * sb < 0 /\ Sgn(Crs(a, b)) = sb \* ahead of c, not behind
(* parameter of the crossing: Tn / Td, Td > 0                              *)
Td(P, c, m, i) == Abs(Crs(m, Sub(P[Nx(P, i)], P[i])))
Tn(P, c, m, i) ==
  LET e == Sub(P[Nx(P, i)], P[i]) IN Sgn(Crs(m, e)) * Crs(Sub(P[i], c), e)
SeenEdge(P, c, m) ==
  LET X == {i \in 1..Len(P) : Crosses(P, c, m, i)}
  IN CHOOSE i \in X : \A j \in X : Tn(P, c, m, i) * Td(P, c, m, j) <= Tn(P, c, m, j) * Td(P, c, m, i)
(* where the line of edge i meets the ray from c along d                   *)
MeetAt(P, c, d, i) ==
  LET e == Sub(P[Nx(P, i)], P[i])
      w == Crs(d, e)
      t == Crs(Sub(P[i], c), e)
  IN Rat(c[1] * w + t * d[1], c[2] * w + t * d[2], w)
OneLine(P, i, j) ==
  Det(P[i], P[Nx(P, i)], P[j]) = 0 /\ Det(P[i], P[Nx(P, i)], P[Nx(P, j)]) = 0

(* the boundary of the visible region as a sequence of                     *)
(* [p |-> point, must |-> is it a corner]                                  *)
RECURSIVE Flatten(_, _)
Flatten(f, k) == IF k = 0 THEN <<>> ELSE Flatten(f, k - 1) \o f[k]
VisBoundary(P, c) ==
  LET D == Dirs(P, c)
      n == Len(D)
      seen == [k \in 1..n |-> SeenEdge(P, c, Add(D[k], D[Nx(D, k)]))] \* wedge k: between D[k] and its successor
      part(k) == LET r == seen[Pv(D, k)] l == seen[k]
                     R == MeetAt(P, c, D[k], r) L == MeetAt(P, c, D[k], l)
                 IN IF R # L THEN <<[p |-> R, must |-> TRUE], [p |-> L, must |-> TRUE]>>
                    ELSE <<[p |-> R, must |-> ~OneLine(P, r, l)]>>
  IN Flatten([k \in 1..n |-> part(k)], n)
IsVisBoundary(P, c, out) ==
  \E B \in {VisBoundary(P, c)} :
    LET kept == SelectSeq(B, LAMBDA b : b.must \/ b.p \in RangeOf(out))
    IN SameCycle([k \in DOMAIN kept |-> kept[k].p], out)
=============================================================================
