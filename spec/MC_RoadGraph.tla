---------------------------- MODULE MC_RoadGraph ----------------------------
(* A segment of two lanes and two of one lane, digitised in either direction, over three branch points. *)
EXTENDS RoadGraph
L4 == {"p", "q", "r", "t"}
B4 == {"b1", "b2", "b3", "b4"}
MCInit == /\ segOf = [n \in L4 |-> CASE n \in {"p", "q"} -> "s1" [] n = "r" -> "s2" [] OTHER -> "s3"]
          /\ \E f \in [L4 \X LaneEnds -> B4], fl \in BOOLEAN :
               /\ f[<<"p", "start">>] = "b1" /\ f[<<"p", "finish">>] \in {"b1", "b2"}
               /\ \A e \in LaneEnds : f[<<"p", e>>] # f[<<"q", e>>]
               /\ at = {[lane |-> k[1], end |-> k[2], bp |-> f[k], side |-> IF (k[2] = "start") = (fl /\ k[1] = "r") THEN "A" ELSE "B"] : k \in L4 \X LaneEnds}
          /\ ends = BpsAt(at, segOf) /\ node = NodesOf(ends)
          /\ act = [op |-> "new"]
Next == UNCHANGED vars
Spec == MCInit /\ [][Next]_vars
View == <<at>>
=============================================================================
