-------------------------------- MODULE C13 --------------------------------
(* Ring bookkeeping over operation histories, double-ended iteration,      *)
(* equality up to rotation.                                                *)
EXTENDS TraceKit, PolyObj, RingIter
VARIABLES pts, ring, q
E == Trace[ln]
Known == E.op \in {"iter", "obj", "eq"}
Steps == IF Known THEN E.nsteps ELSE 1
Init == InitLine /\ pts = <<>> /\ ring = <<>> /\ q = <<>>

Bad(why) == pc' = IF Reject(ln, pc + 1, why) THEN -1 ELSE -1
Iter ==
  /\ UNCHANGED <<pts, ring>>
  /\ IF E.r.st # "ok" THEN Bad("panic") /\ q' = q
     ELSE \E q0 \in {IF pc = 0 THEN Deque(Len(E.ring), E.from, E.kind, E.end) ELSE q} :
       IF pc = E.r.cut /\ ~Runs(E.ring, q0, E.r.fin) THEN q' = q0 /\ Bad("finish")
       ELSE IF pc = Len(E.ops) THEN q' = q0 /\ pc' = pc + 1
       ELSE LET op == E.ops[pc + 1]
           v == E.r.v[pc + 1]
           q1 == After(q0, op)
           want == Gives(q0, op)
       IN /\ q' = q1
          /\ IF /\ v[1] = Len(q0) /\ v[2] = Len(q0) /\ v[3] = Len(q0)
                /\ v[4] = (IF want = 0 THEN 0 ELSE E.ring[want])
                /\ v[5] = Len(q1)
             THEN pc' = pc + 1 ELSE Bad("iter")
Obj ==
  /\ q' = q
  /\ LET s == E.steps[pc + 1] IN
     IF s.r.st # "ok" THEN Bad("panic") /\ UNCHANGED <<pts, ring>>
     ELSE LET o == s.r.v.o
              err == s.r.v.err
          IN /\ pts' = CASE s.do = "new" -> E.ps
                         [] s.do = "swap" -> Swapped(pts)
                         [] OTHER -> pts
             /\ ring' = CASE s.do = "new" -> [i \in 1..Len(E.ps) |-> i]
                          [] s.do \in {"swap", "same"} -> ring
                          [] OTHER -> o.slice
             /\ IF /\ IF ~IsRing(pts', o.slice) THEN FALSE
                      ELSE CASE s.do = "ccw" -> EnsureCcw(pts, ring, err, o.slice)
                             [] s.do = "untangle" -> Untangle(pts, ring, err, o.slice)
                             [] OTHER -> err = ""
                   /\ Shows(pts', ring', o)
                THEN pc' = pc + 1 ELSE Bad(s.do)
Eq ==
  /\ UNCHANGED <<pts, ring, q>>
  /\ LET ok(v) == v = SameCycle(E.a, E.b) IN IF AllRes(E.g, ok) THEN pc' = 1 ELSE Bad("equals")
Step == /\ pc >= 0 /\ pc < Steps
        /\ UNCHANGED ln
        /\ CASE E.op = "iter" -> Iter
             [] E.op = "obj" -> Obj
             [] E.op = "eq" -> Eq
             [] OTHER -> Bad("hang") /\ UNCHANGED <<pts, ring, q>>
Spec == Init /\ [][Step]_<<ln, pc, pts, ring, q>>
(* the ring is always a permutation of the identifiers                     *)
RingInv == (pc > 0 /\ E.op = "obj") => IsRing(pts, ring)
=============================================================================
