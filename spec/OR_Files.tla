------------------------------- MODULE OR_Files -------------------------------
EXTENDS Files, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
C == Cmds[l]
ToS(s) == {s[n] : n \in DOMAIN s}
Skip == Keep /\ act' = [op |-> "Skip", res |-> "ok"]
Try(A) == IF ENABLED A THEN A ELSE Skip
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ IF C.op = "new" THEN dirs' = {} /\ files' = <<>> /\ cwd' = <<>> /\ act' = [op |-> "new", res |-> "ok"]
     ELSE IF C.op = "Create" THEN Create(C.sp)
     ELSE IF C.op = "CreateAll" THEN CreateAll(C.sp)
     ELSE IF C.op = "RemoveFile" THEN RemoveFile(C.sp)
     ELSE IF C.op = "RemoveDir" THEN Try(RemoveDir(C.sp))
     ELSE IF C.op = "Read" THEN Read(C.sp)
     ELSE IF C.op = "Ask" THEN Ask(C.sp)
     ELSE IF C.op = "Spell" THEN Spell(C.sp)
     ELSE IF C.op = "Append" THEN Try(Append1(C.sp, C.tail))
     ELSE IF C.op = "Temp" THEN Temp(ToS(C.set))
     ELSE IF C.op = "Write" THEN Try(Write(C.at, C.content))
     ELSE Try(Enter(C.at))
OSpec == Init /\ l = 1 /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
