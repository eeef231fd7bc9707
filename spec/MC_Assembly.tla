---------------------------- MODULE MC_Assembly ----------------------------
EXTENDS Assembly, Json
E(h, k, id) == [h |-> h, kind |-> k, id |-> id]
MCElems == {E("J1", "J", "j"), E("J2", "J", "k"), E("J3", "J", "j"), E("S1", "S", "j"), E("S2", "S", "k"), E("S3", "S", "j"),
            E("L1", "L", "j"), E("L2", "L", "k"), E("L3", "L", "j"), E("B1", "B", "j"), E("B2", "B", "j")}
NoLanes == ~\E x \in link : Kind(x.h) = "L"
NoSegs == ~\E x \in link : Kind(x.h) = "S"
NoBps == ~\E x \in link : Kind(x.h) = "B"
Next == \/ (NoBps /\ \E h \in {"J1", "J2"} : Attach(h, "rg"))
        \/ (NoBps /\ \E h \in {"S1", "S2"}, p \in {"J1", "J2"} : Attach(h, p))
        \/ (NoBps /\ \E h \in {"L1", "L2"}, p \in {"S1", "S2"} : Attach(h, p))
        \/ Attach("L3", "S2") \/ (NoLanes /\ (Attach("S3", "J2") \/ Attach("J3", "rg")))
        \/ (NoSegs /\ NoLanes /\ \E h \in {"B1", "B2"} : Attach(h, "rg"))
        \/ AttachNull("J", "rg") \/ AttachNull("B", "rg") \/ AttachNull("S", "J1") \/ AttachNull("L", "S1")
MCInit == elems = MCElems /\ link = {} /\ dead = FALSE /\ act = [op |-> "new"]
Spec == MCInit /\ [][Next]_vars
View == [l |-> link, d |-> dead]
ASSUME PrintT(<<"C", ToJson([elems |-> MCElems])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(link = {} /\ ~dead)>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
