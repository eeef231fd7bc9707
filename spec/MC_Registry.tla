---------------------------- MODULE MC_Registry ----------------------------
EXTENDS Registry, Json
MCTypes == {"t", "u", "Right-Of-Way Rule Type"}
Rl(what, k, ids) == [what |-> what, k |-> k, ids |-> {[i |-> i, id |-> ids[i]] : i \in DOMAIN ids}]
W(s, t, rel) == [sev |-> s, text |-> t, min |-> 0, max |-> 0, rel |-> rel]
Q(s, t, a, b, rel) == [sev |-> s, text |-> t, min |-> a, max |-> b, rel |-> rel]
Yield(ids) == {Rl("rules", "Yield Group", ids)}
DvLists == { <<W(0, "a", {})>>, <<W(0, "a", {}), W(1, "a", {}), W(0, "b", {})>>, <<>>, <<W(0, "a", {}), W(0, "a", {})>>,
             <<W(0, "a", Yield(<<"x">>)), W(0, "a", Yield(<<"x", "y">>))>>, <<W(0, "a", Yield(<<"y", "x">>)), W(0, "a", Yield(<<"x", "y">>))>>,
             <<W(0, "a", Yield(<<"x", "x">>))>>, <<W(0, "a", {Rl("rules", "", <<"x">>)})>>, <<W(0, "c", {})>>, <<W(2, "a", {})>>,
             <<W(0, "a", {Rl("ids", "Bulb Group", <<"x">>)}), W(0, "a", Yield(<<"x">>)), W(0, "a", {})>>,
             <<W(0, "a", {Rl("ids", "k", <<"x", "y", "x">>)})>>, <<W(0, "Stop", {}), W(1, "Go", {})>> }
RvLists == { <<Q(0, "a", 1, 2, {})>>, <<Q(0, "a", 1, 2, {}), Q(0, "a", 1, 3, {}), Q(1, "a", 1, 2, {}), Q(0, "b", 1, 2, {}), Q(0, "a", 0, 2, {})>>, <<>>,
             <<Q(0, "a", 1, 2, {}), Q(0, "a", 1, 2, {})>>, <<Q(0, "a", 1, 2, Yield(<<"x">>)), Q(0, "a", 1, 2, {})>>, <<Q(0, "a", 2, 2, {})>>,
             <<Q(0, "b", 1, 2, {}), Q(0, "a", 0, 2, Yield(<<"x", "y">>))>>, <<Q(0, "a", 1, 2, Yield(<<"x", "x">>))>>,
             <<Q(0, "a", 1, 2, Yield(<<"x">>)), Q(0, "a", 1, 2, Yield(<<"x", "y">>))>> }
Zone == <<R("p", 2, 4), R("q", 5, 0), R("p", 9, 6)>>
Next == \/ \E vs \in DvLists : Register("dv", "t", vs) \/ Build("dv", "r", "t", Zone, vs)
        \/ \E vs \in RvLists : Register("rv", "t", vs) \/ Build("rv", "r", "t", Zone, vs)
        \/ \E vs \in {<<W(0, "a", {}), W(1, "a", {})>>, <<>>} : Register("dv", "u", vs) \/ Build("dv", "r", "u", Zone, vs)
        \/ \E vs \in {<<Q(0, "a", 1, 2, {}), Q(0, "a", 1, 2, Yield(<<"x">>))>>} : Register("rv", "u", vs) \/ Build("rv", "r", "u", Zone, vs)
        \/ \E vs \in {<<W(0, "Stop", {}), W(1, "Go", {})>>, <<W(0, "Go", Yield(<<"a", "b">>))>>, <<W(2, "Go", {})>>} : Build("dv", "q", "Right-Of-Way Rule Type", <<>>, vs)
        \/ reg = {} /\ \/ \E vs \in DvLists \cup {<<W(-1, "a", {})>>} : Make("dv", "m", "t", Zone, vs)
                       \/ \E vs \in RvLists \cup {<<Q(0, "a", 2, 1, {})>>, <<Q(-1, "a", 1, 2, {})>>} : Make("rv", "m", "t", Zone, vs)
        \/ \E n \in {"Right-Of-Way Rule Type", "Direction-Usage Rule Type", "Vehicle-Stop-In-Zone-Behavior Rule Type"} :
             (\A r \in reg : r.type \notin {"t", "u"}) /\ RegisterBuiltin(n)
Spec == Init /\ [][Next]_vars
View == {EncType(r) : r \in reg}
ASSUME PrintT(<<"C", ToJson([types |-> MCTypes])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(reg = {})>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
