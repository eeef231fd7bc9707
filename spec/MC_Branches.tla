---------------------------- MODULE MC_Branches ----------------------------
EXTENDS Branches, Json
MCLanes == {[id |-> "l1", seg |-> "s1"], [id |-> "l2", seg |-> "s2"]}
MCBps == {"b1", "b2"}
Se == {"start", "finish"}
Next == \/ \E b \in MCBps, s \in {"A", "B"}, l \in {"l1", "l2"}, e \in Se : Add(b, s, l, e)
        \/ Add("b1", "A", "null", "start")
        \/ (Cardinality(defs) <= 1 /\ \E b \in MCBps, e, f \in Ends : SetDefault(b, e.lane, e.end, f.lane, f.end) /\ Cardinality(defs') <= 1)
MCInit == lanes = MCLanes /\ bps = MCBps /\ at = {} /\ defs = {} /\ act = [op |-> "new"]
Spec == MCInit /\ [][Next]_vars
View == [a |-> at, d |-> defs]
ASSUME PrintT(<<"C", ToJson([lanes |-> MCLanes, bps |-> MCBps])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(at = {} /\ defs = {})>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
