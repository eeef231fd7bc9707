---------------------------- MODULE MC_LaneSeqs ----------------------------
(* Every connectivity of three lanes over two branch points. *)
EXTENDS LaneSeqs
L3 == {"p", "q", "r"}
Pl == {"b1", "b2"} \X {"A", "B"}
MCInit == /\ \E f \in [L3 \X LaneEnds -> Pl] : /\ f[<<"p", "start">>] = <<"b1", "A">>
                                               /\ at = {[lane |-> k[1], end |-> k[2], bp |-> f[k][1], side |-> f[k][2]] : k \in L3 \X LaneEnds}
          /\ len = [n \in L3 |-> CASE n = "p" -> 1 [] n = "q" -> 2 [] OTHER -> 4]
          /\ act = [op |-> "new"]
Next == \E a, b \in L3 : \E max \in {-1, 0, 1, 2, 3, 7} : \/ \E u \in BOOLEAN : FindSeqs(a, b, max, u)
                                                           \/ Derive(a, 0, b, len[b], max)
Spec == MCInit /\ [][Next]_vars
View == <<at, len>>
PathsOkInv == \A m \in {0, 2, 7} : PathsOk(m)
RoutesMeetInv == RoutesMeet(7)
=============================================================================
