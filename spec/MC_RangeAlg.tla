---------------------------- MODULE MC_RangeAlg ----------------------------
EXTENDS RangeAlg, Json
V == -1..4
MCTols == {-2, -1, 0, 1, 2}
Rd == {[id |-> "p", x |-> 0, y |-> 0, len |-> 6, w |-> 1], [id |-> "q", x |-> 0, y |-> 2, len |-> 6, w |-> 1]}
Next == \/ \E i \in {1, 2}, v \in V : SetS0(i, v) \/ SetS1(i, v)
        \/ \E i \in {1, 2} : Make(i, -1, 2) \/ Make(i, 2, -1) \/ Make(i, 4, 0)
        \/ \E n \in {"p", "q"} : SetLane(2, n)
        \/ (pair[1] = pair[2] /\ pair[1] = R("p", 0, 0) /\
            \E z \in {<<>>, <<R("p", 1, 2)>>, <<R("p", 2, 1), R("q", 4, 3)>>, <<R("q", 0, 0), R("p", 5, 6)>>, <<R("q", 1, 1), R("zz", 0, 1)>>},
               x \in -2..8, y \in -3..5 : Included(x, y, z))
MCInit == pair = [i \in {1, 2} |-> R("p", 0, 0)] /\ road = Rd /\ act = [op |-> "new"]
Spec == MCInit /\ [][Next]_vars
View == [a |-> pair[1], b |-> pair[2]]
ASSUME PrintT(<<"C", ToJson([tols |-> MCTols, den |-> 4, lanes |-> Rd])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(pair = [i \in {1, 2} |-> R("p", 0, 0)])>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
