------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation of recorded behaviours of the real library.            *)
(*                                                                         *)
(* A trace file has one JSON object per line.  Every line is an initial    *)
(* state of its own (a session: fresh object, fresh inputs); its events    *)
(* are the steps.  A specification that extends this module supplies for   *)
(* each step the set of abstract successor states that explain it; a step  *)
(* nobody can explain is reported as REJECT and ends its session.          *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Integers, Sequences, Geom

Trace == ndJsonDeserialize(IOEnv.TRACE)

Reject(n, i, why) == PrintT(<<"REJECT", n, i, why>>)
GenError(n, why) == PrintT(<<"GENERROR", n, why>>)

(* One-step sessions: the step of line ln is explained iff ok.              *)
VARIABLES ln, pc
InitLine == ln \in 1..Len(Trace) /\ pc = 0
StepLine(ok) ==
  /\ pc = 0
  /\ pc' = IF ok THEN 1 ELSE IF Reject(ln, 1, Trace[ln].op) THEN 2 ELSE 2
  /\ UNCHANGED ln

(* All results of one abstract input, over scalar types and embeddings:    *)
(* each must be a normal return whose value satisfies ok(_).               *)
AllRes(g, ok(_)) == \A i \in DOMAIN g : g[i].r.st = "ok" /\ ok(g[i].r.v)
=============================================================================
