----------------------------- MODULE MC_Lights -----------------------------
EXTENDS Lights, Json
MCB == {"x", "y", "zz"}
MCG == {"g", "x-g", "zz"}
MCL == {"t", "t-x", "zz"}
Next == \/ MakeBulb("b1", "x", "Red", "Round", 0, {}, 1, 0)
        \/ MakeBulb("b2", "x", "Green", "Arrow", 3, {"On", "Blinking"}, 2, 1)
        \/ MakeBulb("b3", "y", "Yellow", "Round", 0, {"On"}, 3, 2)
        \/ (bulbs = {} /\ groups = {} /\ lights = {} /\ (MakeBulb("b3", "y", "Red", "Round", 1, {}, 1, 0) \/ MakeBulb("b3", "y", "Red", "Arrow", 0, {"On"}, 1, 0)))
        \/ \E k \in {<<"b1">>, <<"b1", "b3">>, <<"b3", "b1">>, <<"b1", "b2">>, <<"b1", "null">>, <<>>} : MakeGroup("g1", "g", k, 4)
        \/ \E id \in {"g", "x-g"}, k \in {<<"b2">>, <<"b2", "b3">>} : MakeGroup("g2", id, k, 5)
        \/ \E k \in {<<"g1">>, <<"g1", "g2">>, <<"g2", "g1">>, <<"null", "g1">>, <<>>} : MakeLight("t1", "t", k, 6)
        \/ \E id \in {"t", "t-x"}, k \in {<<"g2">>} : MakeLight("t2", id, k, 7)
        \/ \E h \in {"t1", "t2"} : AddLight(h)
        \/ AddNull
Spec == Init /\ [][Next]_vars
View == [b |-> {[h |-> b.h, o |-> b.owner] : b \in bulbs},
         g |-> {[h |-> g.h, id |-> g.id, k |-> EncKids(g.kids), o |-> g.owner] : g \in groups},
         l |-> {[h |-> t.h, id |-> t.id, k |-> EncKids(t.kids), b |-> t.inbook] : t \in lights}]
ASSUME PrintT(<<"C", ToJson([bids |-> MCB, gids |-> MCG, lids |-> MCL])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(bulbs = {} /\ groups = {} /\ lights = {})>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
