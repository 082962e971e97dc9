------------------------------ MODULE HullImpl ------------------------------
(***************************************************************************)
(* The two hull algorithms for point lists, as machines: Graham scan over  *)
(* the angularly sorted list (a stack and a reading position), and gift    *)
(* wrapping (the hull so far and the pivot).  Explored for every list of   *)
(* at most K grid points, repeated and colinear ones included, for Graham  *)
(* in every list up to order (it sorts), for gift wrapping in every order. *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS W, H, K, Algo          \* Algo \in {"graham", "gift"}
VARIABLES in, st, stack, rd, res
vars == <<in, st, stack, rd, res>>
Grid == (0..(W - 1)) \X (0..(H - 1))
YX(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
YXLeq(p, q) == p = q \/ YX(p, q)
Lowest(s) == CHOOSE p \in RangeOf(s) : \A r \in RangeOf(s) : YXLeq(p, r)
(* order around the lowest point: angle, then height                       *)
Before(o, a, b) ==
  LET c == AngCmp(<<1, 0>>, Sub(a, o), Sub(b, o)) IN c = -1 \/ (c = 0 /\ YXLeq(a, b))
RECURSIVE Insert(_, _, _)
Insert(o, x, s) ==
  IF s = <<>> THEN <<x>>
  ELSE IF Before(o, x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(o, x, Tail(s))
RECURSIVE Sorted(_, _)
Sorted(o, s) == IF s = <<>> THEN <<>> ELSE Insert(o, Head(s), Sorted(o, Tail(s)))
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Init == in = <<>> /\ st = "pick" /\ stack = <<>> /\ rd = 0 /\ res = "none"
Pick == /\ st = "pick" /\ Len(in) < K
        /\ \E v \in Grid :
             /\ (Algo = "graham" /\ in # <<>>) => YXLeq(Last(in), v)
             /\ in' = Append(in, v)
        /\ UNCHANGED <<st, stack, rd, res>>
Fail == res' = "err" /\ st' = "done" /\ UNCHANGED <<in, stack, rd>>
-----------------------------------------------------------------------------
(* Graham: in is replaced by the sorted list                               *)
GStart == /\ st = "pick" /\ Algo = "graham"
          /\ IF Len(in) < 3 THEN Fail
             ELSE /\ in' = Sorted(Lowest(in), in)
                  /\ stack' = <<in'[1], in'[2]>>
                  /\ rd' = 3 /\ st' = "skip" /\ UNCHANGED res
(* points in the direction of the first ones: keep the last                *)
GSkip == /\ st = "skip"
         /\ IF rd <= Len(in) /\ Turn(in[1], stack[2], in[rd]) = 0
            THEN stack' = <<in[1], in[rd]>> /\ rd' = rd + 1 /\ UNCHANGED st
            ELSE st' = "scan" /\ UNCHANGED <<stack, rd>>
         /\ UNCHANGED <<in, res>>
GScan == /\ st = "scan" /\ rd <= Len(in)
         /\ IF Turn(stack[Len(stack) - 1], Last(stack), in[rd]) = 1
            THEN stack' = Append(stack, in[rd]) /\ rd' = rd + 1
            ELSE stack' = Front(stack) /\ UNCHANGED rd
         /\ UNCHANGED <<in, st, res>>
GEnd == /\ st = "scan" /\ rd > Len(in)
        /\ res' = IF Len(stack) < 3 THEN "err" ELSE "ok"
        /\ st' = "done" /\ UNCHANGED <<in, stack, rd>>
-----------------------------------------------------------------------------
(* Gift wrapping: rd is the pivot's index                                  *)
LowestIdx(s) == CHOOSE i \in DOMAIN s : /\ s[i] = Lowest(s)
                                        /\ \A j \in 1..(i - 1) : s[j] # s[i]
RECURSIVE Wrap(_, _, _, _)
Wrap(s, p, q, i) ==
  IF i > Len(s) THEN q
  ELSE LET t == Turn(s[p], s[i], s[q]) IN
       Wrap(s, p, IF t = 1 \/ (t = 0 /\ Dist2(s[p], s[i]) > Dist2(s[p], s[q])) THEN i ELSE q, i + 1)
WStart == /\ st = "pick" /\ Algo = "gift"
          /\ IF Len(in) < 3 THEN Fail
             ELSE rd' = LowestIdx(in) /\ st' = "wrap" /\ UNCHANGED <<in, stack, res>>
WStep == /\ st = "wrap"
         /\ LET q == Wrap(in, rd, (rd % Len(in)) + 1, 1) IN
            /\ stack' = Append(stack, in[rd])
            /\ rd' = q
            /\ st' = IF in[q] = Lowest(in) THEN "close" ELSE "wrap"
         /\ UNCHANGED <<in, res>>
WEnd == /\ st = "close"
        /\ res' = IF Len(stack) < 3 THEN "err" ELSE "ok"
        /\ st' = "done" /\ UNCHANGED <<in, stack, rd>>
Next == Pick \/ GStart \/ GSkip \/ GScan \/ GEnd \/ WStart \/ WStep \/ WEnd
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Result == st = "done" =>
  IF Len(in) < 3 \/ AllColinear(RangeOf(in)) THEN res = "err"
  ELSE res = "ok" /\ IsHullOf(stack, RangeOf(in))
(* the scan never pops its first two points, and never revisits; the hull  *)
(* so far never repeats a point (so both terminate)                        *)
Stack == /\ st \in {"skip", "scan"} => Len(stack) >= 2 /\ stack[1] = Lowest(in)
         /\ st = "scan" => \A i, j, k \in 1..Len(stack) :
              i < j /\ j < k => Turn(stack[i], stack[j], stack[k]) = 1
         /\ st \in {"wrap", "close"} => DistinctPts(stack)
(* everything read so far is in the hull of the stack (as a fan)           *)
Covered == st = "scan" => \A r \in 1..(rd - 1) :
  \A j \in 1..(Len(stack) - 1) : Turn(stack[j], stack[j + 1], in[r]) # -1
=============================================================================
