------------------------------- MODULE BigPoly -------------------------------
(***************************************************************************)
(* Simple polygons and ears over big integer points, stated with turns     *)
(* only.  BigPolyModel checks that on small points this agrees with the    *)
(* point-set definitions of module Geom.                                   *)
(***************************************************************************)
EXTENDS BigArith
BNx(P, i) == IF i = Len(P) THEN 1 ELSE i + 1
BPv(P, i) == IF i = 1 THEN Len(P) ELSE i - 1
(* p, on the line through a and b, lies between them                        *)
BBetween(p, a, b) == BSgn(BDot(BVec(p, a), BVec(p, b))) <= 0
BMeets(a, b, c, d) ==
  LET s == BTurn(a, b, c) t == BTurn(a, b, d) u == BTurn(c, d, a) v == BTurn(c, d, b)
  IN \/ s * t < 0 /\ u * v < 0
     \/ s = 0 /\ BBetween(c, a, b)
     \/ t = 0 /\ BBetween(d, a, b)
     \/ u = 0 /\ BBetween(a, c, d)
     \/ v = 0 /\ BBetween(b, c, d)
(* the corner at b is no spike                                              *)
BNoSpike(a, b, c) == BTurn(a, b, c) # 0 \/ BSgn(BDot(BVec(b, a), BVec(b, c))) < 0
BIsSimple(P) ==
  /\ Len(P) >= 3
  /\ \A i, j \in 1..Len(P) : i # j => P[i] # P[j]
  /\ \A i \in 1..Len(P) : BNoSpike(P[BPv(P, i)], P[i], P[BNx(P, i)])
  /\ \A i \in 1..Len(P) : \A j \in (i + 1)..Len(P) :
        (j # BNx(P, i) /\ i # BNx(P, j)) => ~BMeets(P[i], P[BNx(P, i)], P[j], P[BNx(P, j)])
BLexLess(p, q) == LET c == BCmp(p[1], q[1]) IN c < 0 \/ (c = 0 /\ BCmp(p[2], q[2]) < 0)
(* counter-clockwise: the corner at the least vertex turns left             *)
BLeast(P) == CHOOSE i \in 1..Len(P) : \A j \in 1..Len(P) : j = i \/ BLexLess(P[i], P[j])
BIsSimpleCCW(P) ==
  /\ BIsSimple(P)
  /\ LET i == BLeast(P) IN BTurn(P[BPv(P, i)], P[i], P[BNx(P, i)]) > 0
BInClosedTri(q, a, b, c) == BTurn(a, b, q) >= 0 /\ BTurn(b, c, q) >= 0 /\ BTurn(c, a, q) >= 0
BIsEar(P, i) ==
  LET a == P[BPv(P, i)] b == P[i] c == P[BNx(P, i)]
  IN /\ BTurn(a, b, c) > 0
     /\ \A j \in 1..Len(P) : (P[j] # a /\ P[j] # b /\ P[j] # c) => ~BInClosedTri(P[j], a, b, c)
=============================================================================
