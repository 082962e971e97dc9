------------------------------- MODULE PolyGen -------------------------------
(***************************************************************************)
(* Generates every simple counter-clockwise polygon over a W x H grid with *)
(* at most MaxN vertices, starting at its lexicographically least vertex.  *)
(* The chain grows vertex by vertex (action Extend); closable chains are   *)
(* printed as input for the conformance drivers.                           *)
(***************************************************************************)
EXTENDS Geom, TLC, Json
CONSTANTS W, H, MaxN
VARIABLE path
Grid == (0..(W - 1)) \X (0..(H - 1))

Init == \E s \in Grid : path = <<s>>
(* the new edge path[n] -> v meets the chain only in path[n] *)
Free(v) ==
  LET n == Len(path) IN
  \A i \in 1..(n - 1) :
    IF i = n - 1 THEN ~Meets(path[i], TRUE, path[n], TRUE, path[n], FALSE, v, TRUE)
    ELSE ~MeetsClosed(path[i], path[i + 1], path[n], v)
Extend == /\ Len(path) < MaxN
          /\ \E v \in Grid :
               /\ LexLess(path[1], v)
               /\ v \notin RangeOf(path)
               /\ Free(v)
               /\ path' = Append(path, v)
Closed == /\ Len(path) >= 3
          /\ Area2(path) > 0
          /\ \A i \in 1..(Len(path) - 1) : EdgesOk(path, i, Len(path))
Spec == Init /\ [][Extend]_path
(* evaluated once per state: emit, and cross-check against the definition *)
Emit == Closed => /\ PrintT("GEN " \o ToJson(path))
                  /\ IsSimpleCCW(path)
=============================================================================
