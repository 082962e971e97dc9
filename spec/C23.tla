-------------------------------- MODULE C23 --------------------------------
(* Recorded histories of operations on real polygons replayed on Session;  *)
(* after every step the queries show exactly the current boundary.         *)
EXTENDS TraceKit, Session
VARIABLES pts, ring
E == Trace[ln]
Known == E.op = "hist"
Steps == IF Known THEN E.nsteps ELSE 1
Bnd(ps, rg) == [i \in 1..Len(rg) |-> ps[rg[i]]]
IsRing(ps, rg) == Len(rg) = Len(ps) /\ RangeOf(rg) = 1..Len(ps)
Init == InitLine /\ pts = <<>> /\ ring = <<>>

P == Bnd(pts, ring)
(* the step s leads from the current state to storage ps, ring rg          *)
Allowed(s, ps, rg) ==
  LET Q == Bnd(ps, rg) IN
  CASE s.do = "start" -> IF s.any THEN Retour(RangeOf(E.ps), Q) ELSE Keep(E.ps, Q)
    [] s.do = "copy" -> ps = pts /\ rg = ring
    [] s.do = "move" -> ps = Moved(pts, s.k, s.d) /\ rg = ring
    [] s.do = "mirror" -> Mirror(P, Q)
    [] s.do = "flip" -> ps = Mirrored(pts) /\ Untangled(Mirrored(P), Q)
    [] s.do = "scramble" ->
         /\ ps = [i \in 1..Len(pts) |-> pts[s.perm[i]]]
         /\ Untangled(Bnd(ps, ring), Q)
    [] s.do \in {"graham", "gift", "melkman"} -> Hull(P, Q)
    [] s.do = "star" -> /\ Star(P, s.c, s.ok, Q)
                        /\ s.ok \/ (ps = pts /\ rg = ring)
    [] s.do = "mono" -> Mono(P, s.d, Q)
    [] s.do = "cut" -> Cut(P, s.k, Q)
    [] s.do = "rebuild" -> Keep(P, Q)
    [] OTHER -> FALSE
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Box(Q) == LET X == {Q[i][1] : i \in DOMAIN Q} Y == {Q[i][2] : i \in DOMAIN Q}
          IN <<MinOf(X), MinOf(Y), MaxOf(X), MaxOf(Y)>>
Code(Q, q) == CASE Locate(Q, q) = "outside" -> 0 [] Locate(Q, q) = "boundary" -> 1 [] OTHER -> 2
Shows(s, Q) ==
  LET o == s.o n == Len(Q) IN
  /\ o.val
  /\ o.a2 = <<>> \/ o.a2 = <<Area2(Q)>>
  /\ o.box = Box(Q)
  /\ o.it = Q
  /\ o.cloc = o.loc
  /\ Len(o.loc) = Len(s.qs) /\ \A j \in DOMAIN s.qs : o.loc[j] = Code(Q, s.qs[j])
  /\ IF n < 4 THEN o.ears = <<>> ELSE Len(o.ears) = n /\ \A i \in 1..n : o.ears[i] = IsEar(Q, i)
  /\ Len(o.mono) = Len(s.ds) /\ \A j \in DOMAIN s.ds : o.mono[j] = IsMonotone(Q, s.ds[j])
  /\ \A j \in DOMAIN o.tri : IsTriangulation(Q, o.tri[j])
  /\ \A j \in DOMAIN o.hull : IsHullOf(o.hull[j], RangeOf(Q))
  /\ o.eq = <<TRUE, FALSE>>
  /\ o.still
Step == /\ pc >= 0 /\ pc < Steps
        /\ UNCHANGED ln
        /\ IF ~Known THEN /\ pc' = IF Reject(ln, 1, "hang") THEN -1 ELSE -1
                          /\ UNCHANGED <<pts, ring>>
           ELSE LET s == E.steps[pc + 1] IN
             IF s.r.st # "ok" THEN /\ pc' = IF Reject(ln, pc + 1, "panic") THEN -1 ELSE -1
                                   /\ UNCHANGED <<pts, ring>>
             ELSE IF s.r.v.err # "" THEN /\ pc' = IF Reject(ln, pc + 1, "error") THEN -1 ELSE -1
                                         /\ UNCHANGED <<pts, ring>>
             ELSE LET v == s.r.v t == s.a @@ [o |-> v.o] IN
                  /\ pts' = v.o.all /\ ring' = v.o.slice
                  /\ pc' = IF /\ IsRing(pts', ring')
                              /\ Allowed(t, pts', ring')
                              /\ Shows(t, Bnd(pts', ring'))
                              /\ pc + 1 = Steps => E.same
                           THEN pc + 1
                           ELSE IF Reject(ln, pc + 1, s.a.do) THEN -1 ELSE -1
Spec == Init /\ [][Step]_<<ln, pc, pts, ring>>
(* every state a history passes through is a simple counter-clockwise polygon *)
Always == pc > 0 => IsSimpleCCW(P)
=============================================================================
