---------------------------- MODULE MC_Rulebook ----------------------------
(* Exhaustive configuration; every transition is emitted for replay in the implementation. *)
EXTENDS Rulebook, Json, TLCExt

CONSTANT MaxRules
MCIds == {"a", "b"}
MCTypes == {"t", "u"}
Zones == { <<R("p", 2, 4)>>,
           <<R("p", 6, 9), R("q", 0, 3)>>,
           <<R("p", 0, 2), R("p", 8, 6)>>,
           <<R("q", 5, 5), R("p", 9, 7), R("q", 1, 0)>> }
MCQueries == << [ranges |-> <<R("p", 5, 5)>>, tol |-> 0],
                [ranges |-> <<R("p", 5, 5)>>, tol |-> 1],
                [ranges |-> <<R("p", 2, 0)>>, tol |-> 0],
                [ranges |-> <<R("q", 4, 4), R("p", 3, 3)>>, tol |-> 0],
                [ranges |-> <<R("q", 0, 9), R("p", 9, 0)>>, tol |-> 0],
                [ranges |-> <<R("x", 0, 9)>>, tol |-> 5],
                [ranges |-> <<>>, tol |-> 1] >>

Next == \/ \E k \in Kinds, id \in MCIds, ty \in MCTypes, z \in Zones :
              (k \in {"rw", "sl", "du"} => ty = "t") /\ Add(k, id, IF k \in {"dv", "rv"} THEN ty ELSE "", z)
        \/ \E k \in Kinds, id \in MCIds \cup {"absent"} : Remove(k, id)
        \/ RemoveAll
        \/ FindRules(<<R("p", 0, 9)>>, -1)
Spec == Init /\ [][Next]_vars

Bound == Cardinality(rules) <= MaxRules
View == {Enc(r) : r \in rules}
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(rules = {})>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
