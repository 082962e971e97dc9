------------------------------ MODULE RayTurns ------------------------------
EXTENDS RaySegment
(* the three-turn decision: 9 none, else the lean                          *)
Ray(o, d, a, b) ==
  LET sa == Side(o, d, a) sb == Side(o, d, b) IN
  IF sa = 0 /\ sb = 0 THEN 9
  ELSE IF sa = 0 THEN IF sb = Turn(a, b, o) THEN sb ELSE 9
  ELSE IF sb = 0 THEN IF sa = Turn(b, a, o) THEN sa ELSE 9
  ELSE IF sa = -sb /\ sa = -Turn(a, b, o) THEN 0 ELSE 9
=============================================================================
