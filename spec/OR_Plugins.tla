---------------------------- MODULE OR_Plugins ----------------------------
EXTENDS Plugins, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OCalls == [i \in DOMAIN C.calls |-> [what |-> C.calls[i].what, id |-> C.calls[i].id, props |-> ToSet(C.calls[i].props)]]
OInit == InitOn({}, {}) /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ dirs' = ToSet(C.dirs) /\ files' = ToSet(C.files) /\ known' = {} /\ up' = FALSE /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "Put" /\ Put(C.file)
     \/ C.op = "Start" /\ Start(C.path)
     \/ C.op = "Add" /\ Add(C.at)
     \/ C.op = "AddNothing" /\ AddNothing
     \/ C.op = "Get" /\ Get(C.id)
     \/ C.op = "Call" /\ IF Known(C.id) THEN Call(C.id, C.what, C.a, C.b) ELSE Get(C.id)
     \/ C.op = "Session" /\ Session(C.path, OCalls)
     \/ C.op = "FilesIn" /\ FilesIn(C.d, C.suffix)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson([res |-> act'.res]), ToJson(Obs')>>)
=============================================================================
