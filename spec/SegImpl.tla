------------------------------ MODULE SegImpl ------------------------------
(***************************************************************************)
(* The case analysis by which two segments with open or closed ends are    *)
(* intersected (four turns, then end point inclusion), and by which a      *)
(* point is found on a segment, against the point-set definition, for      *)
(* every choice of end points on a grid and every inclusion.               *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS W, H
VARIABLES pts, fl      \* the points chosen so far, the inclusion bits
vars == <<pts, fl>>
Grid == (0..(W - 1)) \X (0..(H - 1))
Init == pts = <<>> /\ fl = <<>>
Next == \/ /\ Len(pts) < 4 /\ \E v \in Grid : pts' = Append(pts, v)
           /\ UNCHANGED fl
        \/ /\ Len(pts) = 4 /\ fl = <<>>
           /\ \E f \in [1..4 -> BOOLEAN] : fl' = f
           /\ UNCHANGED pts
Spec == Init /\ [][Next]_vars

(* a segment: <<min, included, max, included>>, ends sorted, the first     *)
(* given end becoming the maximum when both are equal                      *)
MkSeg(a, ai, b, bi) == IF LexLess(a, b) THEN <<a, ai, b, bi>> ELSE <<b, bi, a, ai>>

(* the later start, the earlier end; on a tie the open one                 *)
Rightmost(p, pi, q, qi) ==
  IF p = q THEN <<p, pi /\ qi>> ELSE IF LexLess(p, q) THEN <<q, qi>> ELSE <<p, pi>>
Leftmost(p, pi, q, qi) ==
  IF p = q THEN <<p, pi /\ qi>> ELSE IF LexLess(p, q) THEN <<p, pi>> ELSE <<q, qi>>
Between(x, s) ==
  /\ IF s[2] THEN LexLeq(s[1], x) ELSE LexLess(s[1], x)
  /\ IF s[4] THEN LexLeq(x, s[3]) ELSE LexLess(x, s[3])

Impl(s, t) ==
  LET tb1 == Turn(s[1], s[3], t[1]) tb2 == Turn(s[1], s[3], t[3])
      ta1 == Turn(t[1], t[3], s[1]) ta2 == Turn(t[1], t[3], s[3])
  IN IF tb1 = 0 /\ tb2 = 0 /\ ta1 = 0
     THEN LET lo == Rightmost(s[1], s[2], t[1], t[2])
              hi == Leftmost(s[3], s[4], t[3], t[4])
          IN IF LexLess(lo[1], hi[1]) \/ (lo[1] = hi[1] /\ lo[2] /\ hi[2])
             THEN <<2, lo[1][1], lo[1][2], B2I(lo[2]), hi[1][1], hi[1][2], B2I(hi[2])>>
             ELSE <<>>
     ELSE IF tb1 = 0 THEN IF t[2] /\ Between(t[1], s) THEN <<1>> ELSE <<>>
     ELSE IF tb2 = 0 THEN IF t[4] /\ Between(t[3], s) THEN <<1>> ELSE <<>>
     ELSE IF ta1 = 0 THEN IF s[2] /\ Between(s[1], t) THEN <<1>> ELSE <<>>
     ELSE IF ta2 = 0 THEN IF s[4] /\ Between(s[3], t) THEN <<1>> ELSE <<>>
     ELSE IF tb1 = -tb2 /\ ta1 = -ta2 THEN <<1>> ELSE <<>>
ImplOn(x, s) == Turn(s[1], s[3], x) = 0 /\ Between(x, s)

S == MkSeg(pts[1], fl[1], pts[2], fl[2])
T == MkSeg(pts[3], fl[3], pts[4], fl[4])
Isect == fl # <<>> =>
  Impl(S, T) = SegIsect(pts[1], fl[1], pts[2], fl[2], pts[3], fl[3], pts[4], fl[4])
Symmetric == fl # <<>> => Impl(S, T) = Impl(T, S)
Contains == fl # <<>> => ImplOn(pts[3], S) = OnSeg(pts[3], pts[1], fl[1], pts[2], fl[2])
(* a common point exists iff the parts are met; on a shared line the shared *)
(* part contains exactly the points of both                                *)
Shared == fl # <<>> => LET r == Impl(S, T) IN
  /\ (\E x \in Grid : ImplOn(x, S) /\ ImplOn(x, T)) => r # <<>>
  /\ Len(r) > 1 =>
       LET m == <<<<r[2], r[3]>>, r[4] = 1, <<r[5], r[6]>>, r[7] = 1>> IN
       \A x \in Grid : ImplOn(x, m) = (ImplOn(x, S) /\ ImplOn(x, T))
=============================================================================
