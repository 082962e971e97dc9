----------------------------- MODULE MelkmanImpl -----------------------------
(***************************************************************************)
(* The linear-time hull of a simple polygon as a machine on a deque, for   *)
(* every simple polygon over a grid, from every starting vertex and in     *)
(* both directions of the boundary.  d is the deque; once three points not *)
(* on a line are known its first and last entries are the same point, the  *)
(* newest hull vertex.                                                     *)
(***************************************************************************)
EXTENDS PolyGen
VARIABLES ring, rd, d, st
vars == <<path, ring, rd, d, st>>

MInit == Init /\ ring = <<>> /\ rd = 0 /\ d = <<>> /\ st = "grow"
Grow == st = "grow" /\ Extend /\ UNCHANGED <<ring, rd, d, st>>
Start == /\ st = "grow" /\ Closed
         /\ \E k \in 0..(Len(path) - 1), rev \in BOOLEAN :
              ring' = Rotate(IF rev THEN Reversed(path) ELSE path, k)
         /\ rd' = 1 /\ st' = "read" /\ UNCHANGED <<path, d>>
N == Len(d)
PopEnd(s) == SubSeq(s, 1, Len(s) - 1)
Drop(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
(* fewer than three points not on a line so far                            *)
First == /\ st = "read" /\ rd <= Len(ring) /\ N < 3
         /\ LET p == ring[rd] IN
            d' = IF N < 2 THEN Append(d, p)
                 ELSE IF Turn(d[1], d[2], p) = 0 THEN <<d[1], p>>
                 ELSE LET e == <<p, d[1], d[2], p>>
                      IN IF Turn(e[2], e[3], e[4]) = -1 THEN Reversed(e) ELSE e
         /\ rd' = rd + 1 /\ UNCHANGED <<path, ring, st>>
Skip == /\ st = "read" /\ rd <= Len(ring) /\ N >= 3
        /\ Turn(d[N - 1], d[N], ring[rd]) = 1 /\ Turn(ring[rd], d[2], d[1]) = -1
        /\ rd' = rd + 1 /\ UNCHANGED <<path, ring, d, st>>
Push == /\ st = "read" /\ rd <= Len(ring) /\ N >= 3
        /\ ~(Turn(d[N - 1], d[N], ring[rd]) = 1 /\ Turn(ring[rd], d[2], d[1]) = -1)
        /\ d' = <<ring[rd]>> \o d \o <<ring[rd]>>
        /\ st' = "back" /\ rd' = rd + 1 /\ UNCHANGED <<path, ring>>
Back == /\ st = "back"
        /\ IF Turn(d[N - 2], d[N - 1], d[N]) # 1
           THEN d' = Drop(d, N - 1) /\ UNCHANGED st
           ELSE st' = "front" /\ UNCHANGED d
        /\ UNCHANGED <<path, ring, rd>>
Fro == /\ st = "front"
       /\ IF Turn(d[3], d[2], d[1]) # -1
          THEN d' = Drop(d, 2) /\ UNCHANGED st
          ELSE /\ d' = IF Turn(d[2], d[1], d[N - 1]) = 0 THEN Drop(d, 1) ELSE d
               /\ st' = "read"
       /\ UNCHANGED <<path, ring, rd>>
Done == /\ st = "read" /\ rd > Len(ring)
        /\ d' = PopEnd(d) /\ st' = "done" /\ UNCHANGED <<path, ring, rd>>
MNext == Grow \/ Start \/ First \/ Skip \/ Push \/ Back \/ Fro \/ Done
MSpec == MInit /\ [][MNext]_vars

Read == {ring[i] : i \in 1..(rd - 1)}
Result == st = "done" => IsHullOf(d, RangeOf(ring))
(* between vertices the deque without its end is the hull of what was read *)
Hull == (st = "read" /\ N > 3) => IsHullOf(PopEnd(d), Read)
(* the pops stop before the deque runs empty                               *)
Safe == /\ st = "back" => N >= 3
        /\ st = "front" => N >= 3
        /\ (st = "read" /\ N >= 3) => N >= 4
=============================================================================
