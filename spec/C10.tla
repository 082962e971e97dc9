-------------------------------- MODULE C10 --------------------------------
(* Recorded triangulations replayed step by step on the ear-clipping       *)
(* machine, and the finished result against the certificate definition.    *)
EXTENDS TraceKit, EarClip, BigPoly
VARIABLE rem

E == Trace[ln]
Known == E.op \in {"tri", "trib"}
Big == E.op = "trib"
(* rings made by untangling: no boundary was given                         *)
Free == E.ps = <<>>
Ok == IF Known THEN E.r.st = "ok" ELSE FALSE
Steps == IF Known THEN E.nsteps ELSE 1
P == E.r.v.ring
T == E.r.v.run.tr
(* polygons with features of very different size carry big coordinates;   *)
(* for them the machine itself is the certificate (n - 2 ears clipped)     *)
BClips(t) == {k \in 1..Len(rem) : SameTri(t, TriAt(rem, k)) /\ Len(rem) >= 3 /\ BIsEar(Pts(P, rem), k)}
Ring == IF Ok THEN [i \in 1..Len(P) |-> i] ELSE <<>>

Init == InitLine /\ rem = Ring

Step == /\ pc >= 0 /\ pc < Steps
        /\ IF ~Ok
           THEN /\ Reject(ln, pc + 1, IF Known THEN "panic" ELSE "hang") /\ pc' = -1 /\ rem' = rem
           ELSE IF pc = 0 /\ ~(IF Big THEN BIsSimpleCCW(P) ELSE IF Free THEN IsSimpleCCW(P) ELSE IsSimpleCCW(E.ps))
           THEN /\ GenError(ln, "ring") /\ pc' = -1 /\ rem' = rem
           ELSE IF pc = 0 /\ ~(Big \/ Free \/ SameCycle(P, E.ps))
           THEN /\ Reject(ln, 1, "ring") /\ pc' = -1 /\ rem' = rem
           ELSE IF pc < Len(T)
           THEN \E ks \in {IF Big THEN BClips(T[pc + 1]) ELSE Clips(P, rem, T[pc + 1])} :
                  IF ks = {} THEN /\ Reject(ln, pc + 1, "clip") /\ pc' = -1 /\ rem' = rem
                  ELSE \E k \in {CHOOSE k \in ks : \A j \in ks : k <= j} : rem' = Without(rem, k) /\ pc' = pc + 1
           ELSE /\ rem' = rem
                /\ pc' = IF /\ Done(rem)
                            /\ E.r.v.run.extra = 0
                            /\ Big \/ IsTriangulation(P, T)
                         THEN pc + 1
                         ELSE IF Reject(ln, pc + 1, "end") THEN -1 ELSE -1
        /\ UNCHANGED ln
Spec == Init /\ [][Step]_<<ln, pc, rem>>
(* the machine's own guarantee, checked along every recorded run           *)
RemSimple == (pc > 0 /\ Len(rem) >= 3 /\ ~Big) => IsSimpleCCW(Pts(P, rem))
=============================================================================
