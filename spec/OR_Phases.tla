----------------------------- MODULE OR_Phases -----------------------------
(* The specification as oracle for the commands of a file. *)
EXTENDS Phases, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
Cfg == Cmds[1]
Dec(e) == DecSeq(ToSet(e))
DecPhase(p) == [i |-> p.i, id |-> p.id, hasb |-> p.hasb, rw |-> ToSet(p.rw), dv |-> ToSet(p.dv), bulbs |-> ToSet(p.bulbs)]
DecRing(d) == [id |-> d.id, hasnext |-> d.hasnext, phases |-> {DecPhase(d.phases[i]) : i \in DOMAIN d.phases},
               next |-> {[phase |-> d.next[i].phase, to |-> ToSet(d.next[i].to)] : i \in DOMAIN d.next}]
ORings == ToSet(Cfg.rings)
ORw == ToSet(Cfg.rwrules)
ODv == ToSet(Cfg.dvrules)
OLights == ToSet(Cfg.lights)
OInters == ToSet(Cfg.inters)
OTypes == ToSet(Cfg.types)
OLanes == ToSet(Cfg.lanes)
OPoints == ToSet(Cfg.points)
ODvDesc == {[id |-> d.id, type |-> d.type, zone |-> Dec(d.zone), states |-> d.states] : d \in ToSet(Cfg.dvdesc)}
ORegions == [i \in DOMAIN Cfg.regions |-> [ranges |-> Dec(Cfg.regions[i].ranges), tol |-> Cfg.regions[i].tol]]
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ book' = {} /\ prov' = {} /\ manual' = {} /\ inter' = {} /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "AddRing" /\ AddRing(DecRing(C.ring))
     \/ C.op = "RemoveRing" /\ RemoveRing(C.id)
     \/ C.op = "ProvAdd" /\ ProvAdd(C.ring, C.phase, C.next, C.dur)
     \/ C.op = "ProvSet" /\ ProvSet(C.ring, C.phase, C.next, C.dur)
     \/ C.op = "ManualSet" /\ ManualSet(C.rule, C.state, C.next, C.dur)
     \/ C.op = "AddInter" /\ AddInter(C.id, DecRing(C.ring), Dec(C.region))
     \/ C.op = "InterSet" /\ \/ InterSet(C.id, C.phase, C.next, C.dur)
                             \/ /\ \A x \in inter : x.id # C.id
                                /\ act' = [op |-> "InterSet", res |-> "absent"] /\ UNCHANGED <<book, prov, manual, inter>>
     \/ C.op = "Defaults" /\ Defaults
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
