---------------------------- MODULE OR_Validator ----------------------------
EXTENDS Validator, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
K == Cmds[l]
S(s) == {s[i] : i \in DOMAIN s}
End(e) == [lane |-> e.lane, end |-> e.end]
Bp(b) == [b EXCEPT !.a = S(@), !.b = S(@)]
Geo(g) == [juncs |-> S(g.juncs), segs |-> S(g.segs), lanes |-> S(g.lanes), bps |-> {Bp(b) : b \in S(g.bps)}, lin |-> g.lin]
Val(v) == [v EXCEPT !.rel = S(@)]
Rule(r) == [kind |-> r.kind, id |-> r.id, zone |-> S(r.zone), vals |-> {Val(v) : v \in S(r.vals)},
            lights |-> {[id |-> x.id, groups |-> S(x.groups)] : x \in S(r.lights)}]
Light(t) == [id |-> t.id, groups |-> {[id |-> g.id, bulbs |-> {[id |-> b.id, states |-> S(b.states)] : b \in S(g.bulbs)}] : g \in S(t.groups)}]
Ring(r) == [id |-> r.id, phases |-> {[id |-> p.id, dv |-> {[rule |-> x.rule, val |-> Val(x.val)] : x \in S(p.dv)}, bulbs |-> S(p.bulbs)] : p \in S(r.phases)}]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ K.op = "new" /\ geo' = Empty /\ rules' = {} /\ lights' = {} /\ rings' = {} /\ act' = [op |-> "new", res |-> "ok"]
     \/ K.op = "Load" /\ Load(Geo(K.geo), {Rule(r) : r \in S(K.rules)}, {Light(t) : t \in S(K.lights)}, {Ring(r) : r \in S(K.rings)})
     \/ K.op = "Validate" /\ Validate(S(K.opts))
     \/ K.op = "CheckInvariants" /\ CheckInvariants
     \/ K.op = "IsContiguous" /\ IsContiguous(K.z, K.w)
     \/ K.op = "AddRule" /\ AddRule(Rule(K.rule))
     \/ K.op = "RemoveRule" /\ RemoveRule(K.kind, K.id)
     \/ K.op = "AddLight" /\ AddLight(Light(K.light))
     \/ K.op = "AddRing" /\ AddRing(Ring(K.ring))
     \/ K.op = "RemoveRing" /\ RemoveRing(K.id)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
