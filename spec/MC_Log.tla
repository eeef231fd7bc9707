-------------------------------- MODULE MC_Log --------------------------------
EXTENDS Log, Json
VARIABLE isInit
T(t) == [kind |-> "text", text |-> t, n |-> 0]
N(n) == [kind |-> "int", text |-> "", n |-> n]
B(n) == [kind |-> "bool", text |-> "", n |-> n]
Id(t) == [kind |-> "id", text |-> t, n |-> 0]
End(t) == [kind |-> "end", text |-> t, n |-> 0]
Args == {<<>>, <<T("a {} %s\\ b"), B(0), N(-12)>>, <<T(""), Id("l:1"), End("finish"), N(0), B(1)>>, <<End("start"), T("\n"), T("\t|"), N(7)>>}
Sinks == [global |-> {"g1", "std"}, own |-> {"o1", "o2", "std"}]
Next ==
  /\ isInit' = FALSE
  /\ \/ \E g \in Loggers :
          \/ \E n \in 1..6, as \in Args : Log(g, Levels[n], as)
          \/ \E n \in 1..7 : Set(g, Levels[n])
          \/ Set(g, "unchanged")
          \/ \E s \in (Sinks[g] \ {sink[g]}) \cup {"none"} : SetSink(g, s)
     \/ \E name \in {Levels[n] : n \in 1..7} \cup {"unchanged", "", "INFO", "inf", "info ", "trac", "verbose"} : SetByName(name)
Spec == Start /\ isInit = TRUE /\ [][Next]_<<vars, isInit>>
View == [l |-> level, s |-> sink]
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(isInit)>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
ASSUME PrintT(<<"C", ToJson([n |-> 0])>>)
\* What one logger is told does not change the other.
Apart == [][\A g, h \in Loggers : g # h /\ (level[g] # level'[g] \/ sink[g] # sink'[g]) => level[h] = level'[h] /\ sink[h] = sink'[h]]_vars
=============================================================================
