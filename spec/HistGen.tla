------------------------------- MODULE HistGen -------------------------------
(***************************************************************************)
(* Generates every sequence of operation kinds of a given length; copies   *)
(* and hulls are not repeated at once: nothing new would come of it.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen
VARIABLE hist
Kinds == {"move", "mirror", "flip", "scramble", "graham", "gift", "melkman", "star", "mono", "cut", "rebuild", "copy"}
Idle == {"copy", "graham", "gift", "melkman"}
Init == hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E k \in Kinds : /\ IF hist = <<>> THEN TRUE ELSE ~(k \in Idle /\ hist[Len(hist)] = k)
                            /\ hist' = Append(hist, k)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = MaxLen => PrintT("GEN " \o ToJson(hist))
=============================================================================
