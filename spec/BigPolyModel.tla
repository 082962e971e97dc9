---------------------------- MODULE BigPolyModel ----------------------------
(* every closed chain over a small grid: turn-based definitions = Geom's    *)
EXTENDS Geom, BigPoly
CONSTANTS W, H, MaxN
VARIABLE path
Grid == (0..(W - 1)) \X (0..(H - 1))
Init == path = <<>>
Next == Len(path) < MaxN /\ \E v \in Grid : v \notin RangeOf(path) /\ path' = Append(path, v)
Spec == Init /\ [][Next]_path
Big(P) == [i \in 1..Len(P) |-> <<BOf(P[i][1]), BOf(P[i][2])>>]
Same == Len(path) >= 3 =>
  LET B == Big(path) IN
  /\ BIsSimple(B) = IsSimple(path)
  /\ BIsSimpleCCW(B) = IsSimpleCCW(path)
  /\ IsSimple(path) => \A i \in 1..Len(path) : BIsEar(B, i) = IsEar(path, i)
=============================================================================
