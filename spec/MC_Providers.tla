---------------------------- MODULE MC_Providers ----------------------------
EXTENDS Providers, Json
Rl(what, k, ids) == [what |-> what, k |-> k, ids |-> {[i |-> i, id |-> ids[i]] : i \in DOMAIN ids}]
W(s, t, rel) == [sev |-> s, text |-> t, min |-> 0, max |-> 0, rel |-> rel]
Q(s, t, a, b, rel) == [sev |-> s, text |-> t, min |-> a, max |-> b, rel |-> rel]
Yield(ids) == Rl("rules", "Yield Group", ids)
Bulbs(ids) == Rl("ids", "Bulb Group", ids)
Go == W(0, "Go", {Yield(<<"x", "y">>)})
Stop == W(0, "Stop", {Yield(<<>>), Bulbs(<<"b">>)})
Subset == W(0, "Go", {Yield(<<"x">>)})
Super == W(0, "Go", {Yield(<<"x", "y", "z">>)})
MCIds == {"a", "b", "c", "zz"}
MCRwIds == {"w", "v"}
MCTypes == {RowType, "t"}
MCPoints == {[p |-> 1, lane |-> "p", s |-> 3, tol |-> 0], [p |-> 2, lane |-> "p", s |-> 5, tol |-> 1], [p |-> 3, lane |-> "q", s |-> 7, tol |-> 0],
             [p |-> 4, lane |-> "q", s |-> 2, tol |-> 0], [p |-> 5, lane |-> "p", s |-> 3, tol |-> -1], [p |-> 6, lane |-> "p", s |-> 8, tol |-> 0]}
R1 == Q(0, "s", 0, 5, {})
R2 == Q(0, "s", 0, 6, {})
Rules == { <<"dv", "a", RowType, <<R("p", 4, 2), R("q", 0, 1)>>, <<Go, Stop>>>>,
           <<"dv", "b", RowType, <<R("q", 0, 1), R("p", 0, 1), R("q", 9, 6)>>, <<Subset>>>>,
           <<"rv", "c", "t", <<R("p", 6, 9)>>, <<R2, R1>>>> }
Rule(r) == AddRule(r[1], r[2], r[3], r[4], r[5])
DvVals == {Go, Stop, Subset, Super, W(1, "Go", {Yield(<<"x", "y">>)}), W(0, "Go", {})}
States ==
        \/ \E r \in Rules : Rule(r)
        \/ \E id \in MCIds : RemoveRule(id)
        \/ \E v \in DvVals : SetState("dv", "a", v, {}, 0)
        \/ \E v \in {Go}, n \in {Stop, Subset, Super}, d \in {0, 4, -2} : SetState("dv", "a", v, {n}, d)
        \/ SetState("dv", "a", Go, {}, 3) \/ SetStateZero("dv", "a", Go, {Stop}) \/ SetStateZero("dv", "a", Go, {})
        \/ SetState("dv", "b", Subset, {}, 0) \/ SetState("dv", "b", Go, {}, 0) \/ SetState("dv", "zz", Go, {}, 0) \/ SetState("dv", "c", Go, {}, 0)
        \/ \E n \in {{}, {R2}}, d \in {0, 2} : SetState("rv", "c", R1, n, d)
        \/ SetState("rv", "c", Q(0, "s", 1, 5, {}), {}, 0) \/ SetState("rv", "c", R2, {R2, R2}, 0) \/ SetState("rv", "a", R2, {}, 0)
        \/ SetStateZero("rv", "c", R1, {R1})
        \/ Defaults
Next == \/ (rw = {} /\ States)
        \/ (st = {} /\ \E i \in {"w", "v"}, s \in {"go", "stop"} : RwAdd(i, s) \/ RwSet(i, s))
Spec == Init /\ [][Next]_vars
View == [rules |-> {r.id : r \in rules}, st |-> st, rw |-> rw]
ASSUME PrintT(<<"C", ToJson([ids |-> MCIds, rwids |-> MCRwIds, types |-> MCTypes, points |-> MCPoints])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(rules = {} /\ st = {} /\ rw = {})>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
