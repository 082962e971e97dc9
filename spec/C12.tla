-------------------------------- MODULE C12 --------------------------------
(* Recorded histories of the real set replayed on the abstract multiset.   *)
EXTENDS TraceKit, IsectSet
VARIABLE bag
E == Trace[ln]
Known == E.op = "isect"
Steps == IF Known THEN E.nsteps ELSE 1
Init == InitLine /\ bag = Empty
(* many operations between one look and the next *)
RECURSIVE Fold(_, _)
Fold(b, ops) == IF ops = <<>> THEN b
                ELSE LET o == Head(ops) IN
                     Fold(IF Len(o) = 4 THEN Push(b, o) ELSE RemoveAll(b, o), Tail(ops))
Bag2(s) == IF s.o = "bulk" THEN Fold(bag, s.a)
           ELSE IF s.o = "push" THEN Push(bag, <<s.a[1], s.a[2], s.a[3], s.a[4]>>) ELSE RemoveAll(bag, <<s.a[1], s.a[2]>>)
(* what the object may show after the operation                            *)
Shows(b, v) ==
  /\ Enumerates(v.it, b)
  /\ RangeOf(v.rnd) = Members(b)   \* every member is drawn for some source, nothing else is
  /\ v.none = (Members(b) = {})
Step == /\ pc >= 0 /\ pc < Steps
        /\ IF ~Known THEN pc' = -1 /\ Reject(ln, 1, "hang") /\ bag' = bag
           ELSE LET s == E.steps[pc + 1] IN
                /\ bag' = Bag2(s)
                /\ pc' = IF s.r.st = "ok" /\ Shows(bag', s.r.v) THEN pc + 1
                         ELSE IF Reject(ln, pc + 1, s.o) THEN -1 ELSE -1
        /\ UNCHANGED ln
Spec == Init /\ [][Step]_<<ln, pc, bag>>
=============================================================================
