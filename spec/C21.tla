-------------------------------- MODULE C21 --------------------------------
(* the ear test and the corner orientation at every vertex of a ring        *)
EXTENDS TraceKit
Ring(v) == [i \in 1..Len(v) |-> <<v[i][1], v[i][2]>>]
Corner(P, i) == Turn(P[Pv(P, i)], P[i], P[Nx(P, i)])
(* ears do not depend on where the ring starts: judged on the ring as given *)
EarsOf(P, v) ==
  \A i \in DOMAIN v :
    /\ v[i][3] = B2I(IsEar(P, i))
    /\ v[i][4] = Corner(P, i)
    /\ v[i][5] = B2I(Corner(P, i) = 0)
(* a simple polygon has at least two ears, so the ear test cannot be vacuous *)
TwoEars(P) == (\A i \in 1..Len(P) : Corner(P, i) # 0) => Cardinality({i \in 1..Len(P) : IsEar(P, i)}) >= 2
Accept(n, e) ==
  CASE e.op = "ears" ->
         /\ (IsSimpleCCW(e.ps) /\ TwoEars(e.ps)) \/ GenError(n, "simple")
         /\ AllRes(e.g, LAMBDA v : Len(v) = Len(e.ps) /\ SameCycle(Ring(v), e.ps) /\ EarsOf(Ring(v), v))
    [] e.op = "untangled" ->
         \* whatever ring untangling produced (that it is simple is C11's business)
         AllRes(e.g, LAMBDA v : v = <<>> \/ ~IsSimpleCCW(Ring(v)) \/ EarsOf(Ring(v), v))
    [] OTHER -> FALSE
Next == StepLine(Accept(ln, Trace[ln]))
Spec == InitLine /\ [][Next]_<<ln, pc>>
=============================================================================
