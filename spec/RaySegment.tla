------------------------------- MODULE RaySegment -------------------------------
(* Perturbed lines and half-lines against a segment, as point sets: a line *)
(* runs through o along d; end points on it count as left of it.           *)
EXTENDS Geom

Side(o, d, p) == Sgn(Crs(d, Sub(p, o)))
LeftIfOn(s) == IF s = 0 THEN 1 ELSE s
LineCross(o, d, a, b) == LeftIfOn(Side(o, d, a)) # LeftIfOn(Side(o, d, b))

(* Half-line: 9 = no crossing. The segment a b (not parallel to d) meets   *)
(* the line o + t d at t = Crs(a - o, b - a) / Crs(d, b - a).              *)
Ahead(o, d, a, b) ==
  LET den == Crs(d, Sub(b, a)) IN Sgn(Crs(Sub(a, o), Sub(b, a))) * Sgn(den) > 0
HalfCross(o, d, a, b) ==
  LET sa == Side(o, d, a) sb == Side(o, d, b)
  IN IF Crs(d, Sub(b, a)) = 0 \/ sa * sb > 0 \/ ~Ahead(o, d, a, b) THEN 9
     ELSE IF sa = 0 THEN sb ELSE IF sb = 0 THEN sa ELSE 0
=============================================================================
