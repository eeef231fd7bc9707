----------------------------- MODULE OR_Lights -----------------------------
EXTENDS Lights, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
Cfg == Cmds[1]
OB == ToSet(Cfg.bids)
OG == ToSet(Cfg.gids)
OL == ToSet(Cfg.lids)
Kids(e) == [k \in 1..Len(e) |-> (CHOOSE x \in ToSet(e) : x.i = k).h]
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ bulbs' = {} /\ groups' = {} /\ lights' = {} /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "MakeBulb" /\ MakeBulb(C.h, C.id, C.color, C.type, C.arrow, ToSet(C.states), C.pos, C.bb)
     \/ C.op = "MakeGroup" /\ MakeGroup(C.h, C.id, Kids(C.kids), C.pos)
     \/ C.op = "MakeLight" /\ MakeLight(C.h, C.id, Kids(C.kids), C.pos)
     \/ C.op = "AddLight" /\ AddLight(C.h)
     \/ C.op = "AddNull" /\ AddNull
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
