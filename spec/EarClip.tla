------------------------------- MODULE EarClip -------------------------------
(***************************************************************************)
(* Ear clipping as a state machine over the ring of not yet clipped        *)
(* vertices: rem is a cyclic sequence of vertex indices into P.  The only  *)
(* action removes an ear.  Which ear is taken is left open, so every       *)
(* random source and every bookkeeping strategy is a refinement.           *)
(***************************************************************************)
EXTENDS Geom
Pts(P, rem) == [k \in 1..Len(rem) |-> P[rem[k]]]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
TriAt(rem, k) == <<rem[Pv(rem, k)], rem[k], rem[Nx(rem, k)]>>
(* the triangle t is a rotation of the corner at k *)
SameTri(t, u) == t = u \/ t = <<u[2], u[3], u[1]>> \/ t = <<u[3], u[1], u[2]>>
CanClip(P, rem, k) == Len(rem) >= 3 /\ IsEar(Pts(P, rem), k)
(* positions whose clipping yields triangle t                              *)
Clips(P, rem, t) ==
  {k \in 1..Len(rem) : SameTri(t, TriAt(rem, k)) /\ CanClip(P, rem, k)}
Done(rem) == Len(rem) = 2
=============================================================================
