------------------------------ MODULE Loaders ------------------------------
(* Loading descriptions: what each document means, and which ones are refused.                                      *)
(* Implementation: maliput/base/{rule_registry,road_rulebook,road_rulebook_..._using_rule_registry,traffic_light_book,  *)
(* phase_ring_book,phase_ring_book_..._old_rules,intersection_book}_loader, yaml_conversion.                          *)
(*                                                                                                                    *)
(* A document is a tree: [t: "map", kv: sequence of [k, v]], [t: "seq", v: sequence], [t: "str" or "num", v].           *)
EXTENDS Ranges, Values, TLC

CONSTANT Lanes          \* set of [id, len]: the road geometry
VARIABLES reg,          \* rule registry: [type, kind, values]
          rules,        \* rules of the rulebook with a registered type: [kind, id, type, zone, values]
          rows, dirs,   \* its right-of-way and direction-usage rules
          lights,       \* traffic light book
          rings,        \* phase ring book, as in Phases.tla; discrete values are whole values
          inters,       \* intersection book: [id, ring, region]
          prov,         \* phase provider: [ring, phase, next, dur]
          act
vars == <<reg, rules, rows, dirs, lights, rings, inters, prov, act>>
P == INSTANCE Phases WITH Rings <- {}, RwRules <- {}, DvRules <- {}, Lights <- {}, Inters <- {}, DvDesc <- {}, Points <- {}, Lanes <- {},
                          Types <- {}, Regions <- {}, book <- rings, prov <- prov, manual <- {}, inter <- inters, act <- act
G == INSTANCE Registry WITH Types <- {}, reg <- reg, act <- act

----------------------------------------------------------------------------
(* Trees. *)
IsMap(n) == n.t = "map"
IsSeq(n) == n.t = "seq"
IsNum(n) == n.t = "num"
IsText(n) == n.t \in {"str", "num"}
Text(n) == IF IsNum(n) THEN ToString(n.v) ELSE n.v
IsId(n) == IsText(n) /\ Text(n) # ""
Keys(n) == {n.kv[i].k : i \in DOMAIN n.kv}
Has(n, k) == k \in Keys(n)
At(n, k) == n.kv[CHOOSE i \in DOMAIN n.kv : n.kv[i].k = k].v
Kids(n) == {n.v[i] : i \in DOMAIN n.v}
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Texts(n) == [i \in DOMAIN n.v |-> Text(n.v[i])]
IsIds(n) == IsSeq(n) /\ \A x \in Kids(n) : IsId(x)
(* n is a map that has k with a value as described. *)
With(n, k, Ok(_)) == Has(n, k) /\ Ok(At(n, k))
Maybe(n, k, Ok(_)) == Has(n, k) => Ok(At(n, k))
EveryIn(n, Ok(_)) == IsSeq(n) /\ \A x \in Kids(n) : Ok(x)
Numbers(n, k) == IsSeq(n) /\ Len(n.v) = k /\ \A x \in Kids(n) : IsNum(x)
Nums(n) == [i \in DOMAIN n.v |-> n.v[i].v]
(* A named mandatory list of maps in the document's root. *)
Root(doc, k, Ok(_)) == IsMap(doc) /\ With(doc, k, LAMBDA n : EveryIn(n, LAMBDA x : IsMap(x) /\ Ok(x)))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Indexed(s) == {[i |-> i, id |-> s[i]] : i \in DOMAIN s}

----------------------------------------------------------------------------
(* Values of rules. *)
Common == {"severity", "related_rules", "related_unique_ids"}
IsDv(n) == IsMap(n) /\ Has(n, "value") /\ Keys(n) \subseteq Common \cup {"value"}
IsRv(n) == IsMap(n) /\ Has(n, "range") /\ Has(n, "description") /\ Keys(n) \subseteq Common \cup {"range", "description"}
Interval(n) == Numbers(n, 2) /\ n.v[1].v <= n.v[2].v
Natural(n) == IsNum(n) /\ n.v >= 0
PlainOk(kind, n) == /\ Maybe(n, "severity", Natural)
                    /\ IF kind = "dv" THEN IsText(At(n, "value")) ELSE Interval(At(n, "range")) /\ IsText(At(n, "description"))
Value(kind, n, rel) ==
  [sev |-> IF Has(n, "severity") THEN At(n, "severity").v ELSE 0, rel |-> rel,
   text |-> IF kind = "dv" THEN Text(At(n, "value")) ELSE Text(At(n, "description")),
   min |-> IF kind = "dv" THEN 0 ELSE At(n, "range").v[1].v, max |-> IF kind = "dv" THEN 0 ELSE At(n, "range").v[2].v]
Kind(ns) == CASE ns # <<>> /\ (\A i \in DOMAIN ns : IsDv(ns[i])) -> "dv"
              [] ns # <<>> /\ (\A i \in DOMAIN ns : IsRv(ns[i])) -> "rv"
              [] OTHER -> "neither"

(* Rule registry: for each type its possible values; related_rules and related_unique_ids list keys. *)
Keyed(what, n, k) == IF Has(n, k) THEN {[what |-> what, k |-> Text(x), ids |-> {}] : x \in Kids(At(n, k))} ELSE {}
TypeValue(kind, n) == Value(kind, n, Keyed("rules", n, "related_rules") \cup Keyed("ids", n, "related_unique_ids"))
TypeOk(n) == IsSeq(n) /\ LET kind == Kind(n.v) IN
  /\ kind # "neither"
  /\ \A x \in Kids(n) : PlainOk(kind, x) /\ Maybe(x, "related_rules", LAMBDA y : EveryIn(y, IsText)) /\ Maybe(x, "related_unique_ids", LAMBDA y : EveryIn(y, IsText))
  /\ Distinct([i \in DOMAIN n.v |-> TypeValue(kind, n.v[i])])
RegistryOk(doc) == IsMap(doc) /\ With(doc, "RuleRegistry", LAMBDA n : IsMap(n) /\ NoDup([i \in DOMAIN n.kv |-> n.kv[i].k])
                                                                      /\ \A i \in DOMAIN n.kv : n.kv[i].k # "" /\ TypeOk(n.kv[i].v))
Registry(doc) == LET n == At(doc, "RuleRegistry") IN
  {[type |-> n.kv[i].k, kind |-> Kind(n.kv[i].v.v), values |-> [j \in DOMAIN n.kv[i].v.v |-> TypeValue(Kind(n.kv[i].v.v), n.kv[i].v.v[j])]] : i \in DOMAIN n.kv}

(* Zones: ranges of known lanes, by default the whole lane. *)
Length(id) == (CHOOSE l \in Lanes : l.id = id).len
RangeOk(lk, rk, n) == /\ IsMap(n) /\ With(n, lk, LAMBDA x : IsText(x) /\ Text(x) \in {l.id : l \in Lanes})
                      /\ Maybe(n, rk, LAMBDA x : Numbers(x, 2) /\ \A y \in Kids(x) : y.v >= 0 /\ y.v <= Length(Text(At(n, lk))))
RangeOf(lk, rk, n) == LET l == Text(At(n, lk)) IN
  IF Has(n, rk) THEN R(l, At(n, rk).v[1].v, At(n, rk).v[2].v) ELSE R(l, 0, Length(l))

(* Rulebook with registered types.  Related rules and ids: lists of maps from a key to a list of ids. *)
RelatedOk(n) == EveryIn(n, LAMBDA m : IsMap(m) /\ \A i \in DOMAIN m.kv : IsIds(m.kv[i].v))
RelatedOf(what, n) ==
  LET all == Concat([i \in DOMAIN n.v |-> n.v[i].kv]) IN
  {[what |-> what, k |-> k, ids |-> Indexed(Concat([i \in DOMAIN all |-> IF all[i].k = k THEN Texts(all[i].v) ELSE <<>>]))] : k \in {all[i].k : i \in DOMAIN all}}
StateOf(kind, n) == Value(kind, n, RelatedOf("rules", At(n, "related_rules")) \cup RelatedOf("ids", At(n, "related_unique_ids")))
StateList(n) == IF Has(n, "values") THEN At(n, "values") ELSE At(n, "ranges")
RuleOk(n) ==
  /\ With(n, "id", IsId) /\ With(n, "type", IsId) /\ With(n, "zone", LAMBDA z : EveryIn(z, LAMBDA x : RangeOk("lane_id", "s_range", x)))
  /\ Has(n, "values") \/ Has(n, "ranges")
  /\ IsSeq(StateList(n))
  /\ LET kind == Kind(StateList(n).v) IN
     /\ kind = (IF Has(n, "values") THEN "dv" ELSE "rv")
     /\ \A x \in Kids(StateList(n)) : PlainOk(kind, x) /\ With(x, "related_rules", RelatedOk) /\ With(x, "related_unique_ids", RelatedOk)
RuleOf(n) == LET kind == Kind(StateList(n).v) IN
  [kind |-> kind, id |-> Text(At(n, "id")), type |-> Text(At(n, "type")),
   zone |-> [i \in DOMAIN At(n, "zone").v |-> RangeOf("lane_id", "s_range", At(n, "zone").v[i])],
   values |-> [i \in DOMAIN StateList(n).v |-> StateOf(kind, StateList(n).v[i])]]
RulesOk(doc) == /\ Root(doc, "RoadRulebook", RuleOk)
                /\ \A x \in Kids(At(doc, "RoadRulebook")) : LET r == RuleOf(x) IN G!CanBuild(r.kind, r.type, r.values)
                /\ LET N == At(doc, "RoadRulebook").v IN NoDup([i \in DOMAIN N |-> Text(At(N[i], "id"))])
RulesOf(doc) == {RuleOf(x) : x \in Kids(At(doc, "RoadRulebook"))}

(* Rulebook of right-of-way and direction-usage rules, with the discrete value rules derived from the former. *)
RowStates == {"Go", "Stop", "StopThenGo"}
GroupsOk(n) == IsMap(n) /\ \A i \in DOMAIN n.kv : n.kv[i].k # "" /\ IsIds(n.kv[i].v) /\ NoDup(Texts(n.kv[i].v))
RowOk(n) ==
  /\ With(n, "ID", IsId)
  /\ With(n, "States", LAMBDA s : IsMap(s) /\ s.kv # <<>> /\ Keys(s) \subseteq RowStates /\ \A i \in DOMAIN s.kv : IsIds(s.kv[i].v) /\ NoDup(Texts(s.kv[i].v)))
  /\ With(n, "Zone", LAMBDA z : EveryIn(z, LAMBDA x : RangeOk("Lane", "SRange", x)))
  /\ Maybe(n, "ZoneType", LAMBDA x : IsText(x) /\ Text(x) \in {"StopExcluded", "StopAllowed"})
  /\ Maybe(n, "RelatedBulbGroups", GroupsOk)
RowOf(n) ==
  [id |-> Text(At(n, "ID")), zone |-> [i \in DOMAIN At(n, "Zone").v |-> RangeOf("Lane", "SRange", At(n, "Zone").v[i])],
   stop |-> Has(n, "ZoneType") /\ Text(At(n, "ZoneType")) = "StopAllowed",
   states |-> {[type |-> s, yield |-> Indexed(Texts(At(At(n, "States"), s)))] : s \in Keys(At(n, "States"))},
   groups |-> IF Has(n, "RelatedBulbGroups") THEN LET g == At(n, "RelatedBulbGroups") IN {[tl |-> g.kv[i].k, groups |-> Indexed(Texts(g.kv[i].v))] : i \in DOMAIN g.kv} ELSE {}]
StopType == "Vehicle-Stop-In-Zone-Behavior Rule Type"
RowType == "Right-Of-Way Rule Type"
StopRule(r) == [kind |-> "dv", id |-> StopType \o "/" \o r.id, type |-> StopType, zone |-> r.zone,
                values |-> <<G!V(0, IF r.stop THEN "UnconstrainedParking" ELSE "DoNotStop")>>]
RowValue(r, s) ==
  [G!V(0, s.type) EXCEPT !.rel = {[what |-> "rules", k |-> StopType, ids |-> {[i |-> 1, id |-> StopType \o "/" \o r.id]}],
                                  [what |-> "rules", k |-> "Yield Group", ids |-> {[i |-> y.i, id |-> RowType \o "/" \o y.id] : y \in s.yield}],
                                  [what |-> "ids", k |-> "Bulb Group", ids |-> UNION {{[i |-> 0, id |-> g.tl \o "-" \o x.id] : x \in g.groups} : g \in r.groups}]}]
(* The values in some order. *)
Listed(S) == CHOOSE s \in [1..Cardinality(S) -> S] : NoDup(s)
RowRule(r) == [kind |-> "dv", id |-> RowType \o "/" \o r.id, type |-> RowType, zone |-> r.zone, values |-> Listed({RowValue(r, s) : s \in r.states})]
Uses == {"WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Parking"}
UseOk(n) == IsMap(n) /\ With(n, "ID", IsId) /\ With(n, "Severity", LAMBDA x : IsText(x) /\ Text(x) \in {"Strict", "Preferred"})
            /\ With(n, "Type", LAMBDA x : IsText(x) /\ Text(x) \in Uses)
DirOk(n) == /\ With(n, "ID", IsId) /\ With(n, "Zone", LAMBDA x : RangeOk("Lane", "SRange", x))
            /\ With(n, "States", LAMBDA s : EveryIn(s, UseOk) /\ s.v # <<>> /\ NoDup([i \in DOMAIN s.v |-> Text(At(s.v[i], "ID"))]))
DirOf(n) == [id |-> Text(At(n, "ID")), zone |-> RangeOf("Lane", "SRange", At(n, "Zone")),
             states |-> {[id |-> Text(At(x, "ID")), sev |-> Text(At(x, "Severity")), type |-> Text(At(x, "Type"))] : x \in Kids(At(n, "States"))}]
UniqueIds(n) == NoDup([i \in DOMAIN n.v |-> Text(At(n.v[i], "ID"))])
OldOk(doc) == IsMap(doc) /\ With(doc, "RoadRulebook", LAMBDA n : IsMap(n) /\ Root(n, "RightOfWayRules", RowOk) /\ Root(n, "DirectionUsageRules", DirOk)
                                                                 /\ UniqueIds(At(n, "RightOfWayRules")) /\ UniqueIds(At(n, "DirectionUsageRules")))
RowsOf(doc) == {RowOf(x) : x \in Kids(At(At(doc, "RoadRulebook"), "RightOfWayRules"))}
DirsOf(doc) == {DirOf(x) : x \in Kids(At(At(doc, "RoadRulebook"), "DirectionUsageRules"))}

----------------------------------------------------------------------------
(* Traffic lights. *)
BulbStates == {"Off", "On", "Blinking"}
PoseOk(n, of) == IsMap(n) /\ With(n, "position_" \o of, LAMBDA x : Numbers(x, 3)) /\ With(n, "orientation_" \o of, LAMBDA x : Numbers(x, 4))
PoseOf(n, of) == LET p == Nums(At(n, "position_" \o of)) q == Nums(At(n, "orientation_" \o of)) IN
                 [x |-> p[1], y |-> p[2], z |-> p[3], qw |-> q[1], qx |-> q[2], qy |-> q[3], qz |-> q[4]]
BoxOk(n) == IsMap(n) /\ With(n, "min", LAMBDA x : Numbers(x, 3)) /\ With(n, "max", LAMBDA x : Numbers(x, 3))
BulbOk(n) ==
  /\ With(n, "ID", IsId) /\ With(n, "Pose", LAMBDA x : PoseOk(x, "bulb_group"))
  /\ With(n, "Color", LAMBDA x : IsText(x) /\ Text(x) \in {"Red", "Yellow", "Green"})
  /\ With(n, "Type", LAMBDA x : IsText(x) /\ Text(x) \in {"Round", "Arrow"})
  /\ (Text(At(n, "Type")) = "Arrow" => With(n, "ArrowOrientation", IsNum))
  /\ Maybe(n, "States", LAMBDA s : IsSeq(s) /\ \A x \in Kids(s) : IsText(x) /\ Text(x) \in BulbStates)
  /\ Maybe(n, "BoundingBox", BoxOk)
BulbOf(n) ==
  [id |-> Text(At(n, "ID")), pose |-> PoseOf(At(n, "Pose"), "bulb_group"), color |-> Text(At(n, "Color")), type |-> Text(At(n, "Type")),
   arrow |-> IF Text(At(n, "Type")) = "Arrow" THEN {At(n, "ArrowOrientation").v} ELSE {},
   states |-> IF Has(n, "States") /\ At(n, "States").v # <<>> THEN {Text(x) : x \in Kids(At(n, "States"))} ELSE {"Off", "On"},
   box |-> IF Has(n, "BoundingBox") THEN LET a == Nums(At(At(n, "BoundingBox"), "min")) b == Nums(At(At(n, "BoundingBox"), "max")) IN
             {[x0 |-> a[1], y0 |-> a[2], z0 |-> a[3], x1 |-> b[1], y1 |-> b[2], z1 |-> b[3]]} ELSE {}]
GroupOk(n) == /\ With(n, "ID", IsId) /\ With(n, "Pose", LAMBDA x : PoseOk(x, "traffic_light"))
              /\ Root(n, "Bulbs", BulbOk) /\ At(n, "Bulbs").v # <<>> /\ UniqueIds(At(n, "Bulbs"))
EncAll(n, Of(_)) == {[i |-> i, v |-> Of(n.v[i])] : i \in DOMAIN n.v}
GroupOf(n) == [id |-> Text(At(n, "ID")), pose |-> PoseOf(At(n, "Pose"), "traffic_light"), bulbs |-> EncAll(At(n, "Bulbs"), BulbOf)]
LightOk(n) == /\ With(n, "ID", IsId) /\ With(n, "Pose", LAMBDA x : PoseOk(x, "road_network"))
              /\ Root(n, "BulbGroups", GroupOk) /\ UniqueIds(At(n, "BulbGroups"))
LightOf(n) == [id |-> Text(At(n, "ID")), pose |-> PoseOf(At(n, "Pose"), "road_network"), groups |-> EncAll(At(n, "BulbGroups"), GroupOf)]
LightsOk(doc) == Root(doc, "TrafficLights", LightOk) /\ UniqueIds(At(doc, "TrafficLights"))
LightsOf(doc) == {LightOf(x) : x \in Kids(At(doc, "TrafficLights"))}

----------------------------------------------------------------------------
(* Phase rings. *)
Rule(id) == CHOOSE r \in rules : r.id = id /\ r.kind = "dv"
Row(id) == CHOOSE r \in rows : r.id = id
(* The state of a rule in a phase that does not mention it. *)
Default(have) == IF "Stop" \in have THEN "Stop" ELSE IF "StopThenGo" \in have THEN "StopThenGo" ELSE IF "Go" \in have THEN "Go" ELSE "none"
ValuesOf(r) == {r.values[i].text : i \in DOMAIN r.values}
TypesOf(r) == {s.type : s \in r.states}
Named(r, text) == r.values[CHOOSE i \in DOMAIN r.values : r.values[i].text = text /\ \A j \in 1..(i - 1) : r.values[j].text # text]
Given(p) == IF Has(p, "RightOfWayRuleStates") THEN At(p, "RightOfWayRuleStates") ELSE [t |-> "map", kv |-> <<>>]
(* Bulbs: those of the groups that a phase mentions, each in the given or its default state. *)
LightById(id) == CHOOSE l \in lights : l.id = id
GroupById(l, id) == (CHOOSE g \in l.groups : g.v.id = id).v
BulbMapOk(g, n) == IsMap(n) /\ \A i \in DOMAIN n.kv : n.kv[i].k \in {b.v.id : b \in g.bulbs} /\ IsText(n.kv[i].v) /\ Text(n.kv[i].v) \in BulbStates
GroupMapOk(l, n) == IsMap(n) /\ \A i \in DOMAIN n.kv : n.kv[i].k \in {g.v.id : g \in l.groups} /\ BulbMapOk(GroupById(l, n.kv[i].k), n.kv[i].v)
LightMapOk(n) == IsMap(n) /\ \A i \in DOMAIN n.kv : n.kv[i].k \in {l.id : l \in lights} /\ GroupMapOk(LightById(n.kv[i].k), n.kv[i].v)
DefState(b) == IF "Off" \in b.states THEN "Off" ELSE IF "Blinking" \in b.states THEN "Blinking" ELSE "On"
BulbsIn(n) ==
  UNION {LET l == LightById(n.kv[i].k) m == n.kv[i].v IN
         UNION {LET g == GroupById(l, m.kv[j].k) s == m.kv[j].v IN
                {[tl |-> l.id, bulb |-> g.id \o "-" \o b.v.id, state |-> IF Has(s, b.v.id) THEN Text(At(s, b.v.id)) ELSE DefState(b.v)] : b \in g.bulbs}
                : j \in DOMAIN m.kv} : i \in DOMAIN n.kv}
PhaseOk(n, old, ids) ==
  /\ With(n, "ID", IsId)
  /\ (old => Has(n, "RightOfWayRuleStates"))
  /\ IsMap(Given(n))
  /\ \A i \in DOMAIN Given(n).kv : LET x == Given(n).kv[i] IN
       x.k \in ids /\ IsText(x.v) /\ Text(x.v) \in (IF old THEN TypesOf(Row(x.k)) ELSE ValuesOf(Rule(x.k)))
  /\ Maybe(n, "TrafficLightStates", LightMapOk)
PhaseOf(n, old, ids, k) ==
  LET S(id) == IF Has(Given(n), id) THEN Text(At(Given(n), id)) ELSE Default(IF old THEN TypesOf(Row(id)) ELSE ValuesOf(Rule(id))) IN
  [i |-> k, id |-> Text(At(n, "ID")), hasb |-> Has(n, "TrafficLightStates"),
   rw |-> IF old THEN {[rule |-> id, state |-> S(id)] : id \in ids} ELSE {},
   dv |-> IF old THEN {[rule |-> RowType \o "/" \o id, val |-> Named(Rule(RowType \o "/" \o id), S(id))] : id \in ids}
          ELSE {[rule |-> id, val |-> Named(Rule(id), S(id))] : id \in ids},
   bulbs |-> IF Has(n, "TrafficLightStates") THEN BulbsIn(At(n, "TrafficLightStates")) ELSE {}]
NextOk(n) == IsMap(n) /\ With(n, "ID", IsId) /\ Maybe(n, "duration_until", IsNum)
GraphOk(n) == IsMap(n) /\ \A i \in DOMAIN n.kv : EveryIn(n.kv[i].v, NextOk)
RingOk(n, old) ==
  /\ With(n, "ID", IsId)
  /\ With(n, "Rules", IsIds)
  /\ \A x \in Kids(At(n, "Rules")) :
       IF old THEN (\E r \in rows : r.id = Text(x)) /\ \E r \in rules : r.id = RowType \o "/" \o Text(x)
       ELSE (\E r \in rules : r.id = Text(x) /\ r.kind = "dv") /\ Default(ValuesOf(Rule(Text(x)))) # "none"
  /\ Root(n, "Phases", LAMBDA p : PhaseOk(p, old, {Text(x) : x \in Kids(At(n, "Rules"))}))
  /\ Maybe(n, "PhaseTransitionGraph", GraphOk)
RingOf(n, old) ==
  [id |-> Text(At(n, "ID")), hasnext |-> Has(n, "PhaseTransitionGraph"),
   phases |-> {PhaseOf(At(n, "Phases").v[k], old, {Text(x) : x \in Kids(At(n, "Rules"))}, k) : k \in DOMAIN At(n, "Phases").v},
   next |-> IF ~Has(n, "PhaseTransitionGraph") THEN {} ELSE
            LET g == At(n, "PhaseTransitionGraph") IN
            {[phase |-> g.kv[i].k, to |-> {[i |-> j, id |-> Text(At(g.kv[i].v.v[j], "ID")),
                                            dur |-> IF Has(g.kv[i].v.v[j], "duration_until") THEN At(g.kv[i].v.v[j], "duration_until").v ELSE 0] : j \in DOMAIN g.kv[i].v.v}]
             : i \in DOMAIN g.kv}]
Disjoint(D, E) == D.id # E.id /\ P!RingRw(D) \cap P!RingRw(E) = {} /\ P!RingDv(D) \cap P!RingDv(E) = {}
RingsOk(doc, old) ==
  /\ Root(doc, "PhaseRings", LAMBDA n : RingOk(n, old) /\ P!RingValid(RingOf(n, old)))
  /\ LET N == At(doc, "PhaseRings").v IN \A i, j \in DOMAIN N : i < j => Disjoint(RingOf(N[i], old), RingOf(N[j], old))
RingsOf(doc, old) == {RingOf(x, old) : x \in Kids(At(doc, "PhaseRings"))}

----------------------------------------------------------------------------
(* Intersections.  pre: the phases that the provider starts with. *)
RingById(id) == CHOOSE D \in rings : D.id = id
DvZone(D) == UNION {{Rule(x.rule).zone[i] : i \in DOMAIN Rule(x.rule).zone} : x \in UNION {p.dv : p \in D.phases}}
RowZone(D) == UNION {{Row(x.rule).zone[i] : i \in DOMAIN Row(x.rule).zone} : x \in UNION {p.rw : p \in D.phases}}
Region(D) == IF DvZone(D) = {} THEN RowZone(D) ELSE DvZone(D)
(* The rules of the ring are still in the rulebook. *)
Resolved(D) == /\ \A x \in P!RingDv(D) : \E r \in rules : r.id = x /\ r.kind = "dv"
               /\ DvZone(D) = {} => \A x \in P!RingRw(D) : \E r \in rows : r.id = x
InterOk(n) == /\ With(n, "ID", IsId) /\ With(n, "PhaseRing", IsId) /\ With(n, "InitialPhase", IsId)
              /\ \E D \in rings : D.id = Text(At(n, "PhaseRing")) /\ Text(At(n, "InitialPhase")) \in P!PIds(D) /\ Resolved(D)
InterOf(n) == LET D == RingById(Text(At(n, "PhaseRing"))) IN [id |-> Text(At(n, "ID")), ring |-> D.id, region |-> Region(D)]
(* The first listed next phase follows. *)
Start(D, p) == LET n == P!NextOf(D, p) IN
  IF n = {} THEN [ring |-> D.id, phase |-> p, next |-> "", dur |-> 0]
  ELSE LET f == CHOOSE t \in n : \A u \in n : t.i <= u.i IN [ring |-> D.id, phase |-> p, next |-> f.id, dur |-> f.dur]
RECURSIVE Started(_, _)
Started(ns, pv) == IF ns = <<>> THEN pv ELSE
  LET D == RingById(Text(At(ns[1], "PhaseRing"))) IN
  Started(Tail(ns), {x \in pv : x.ring # D.id} \cup {Start(D, Text(At(ns[1], "InitialPhase")))})
IntersOk(doc) == IsMap(doc) /\ (Has(doc, "Intersections") => Root(doc, "Intersections", InterOk) /\ UniqueIds(At(doc, "Intersections")))
InterDocs(doc) == IF Has(doc, "Intersections") THEN At(doc, "Intersections").v ELSE <<>>

----------------------------------------------------------------------------
(* Descriptions whose meaning is left open: what is stated beyond the fields of its kind, orientations that are no unit  *)
(* quaternion, durations that are not positive, states that a bulb does not have, lists of related rules and groups that are empty or no lists, rules with both values and ranges.               *)
Odd(what, doc) ==
  LET Subs(n, k) == IF IsMap(n) /\ Has(n, k) /\ IsSeq(At(n, k)) THEN {x \in Kids(At(n, k)) : IsMap(x)} ELSE {}
      Sub(n, k) == IF IsMap(n) /\ Has(n, k) THEN {At(n, k)} ELSE {}
      OddRel(n) == IsSeq(n) /\ \E m \in Kids(n) : ~IsMap(m) \/ \E i \in DOMAIN m.kv : ~IsSeq(m.kv[i].v) \/ m.kv[i].v.v = <<>>
      OddBulb(b) == \/ Has(b, "ArrowOrientation") /\ (Has(b, "Type") => ~IsText(At(b, "Type")) \/ Text(At(b, "Type")) # "Arrow")
                    \/ \E s \in Sub(b, "States") : IsSeq(s) /\ ~NoDup(s.v)
      OddPose(n, of) == \E p \in Sub(n, "Pose") : \E q \in Sub(p, "orientation_" \o of) :
                          Numbers(q, 4) /\ LET v == Nums(q) IN v[1] * v[1] + v[2] * v[2] + v[3] * v[3] + v[4] * v[4] # 1
      OddState(m) == IsMap(m) /\ \E i \in DOMAIN m.kv : IsMap(m.kv[i].v) /\ m.kv[i].k \in {l.id : l \in lights} /\
                       LET l == LightById(m.kv[i].k) g == m.kv[i].v IN
                       \E j \in DOMAIN g.kv : IsMap(g.kv[j].v) /\ g.kv[j].k \in {y.v.id : y \in l.groups} /\
                         LET b == GroupById(l, g.kv[j].k).bulbs s == g.kv[j].v IN
                         \E k \in DOMAIN s.kv : IsText(s.kv[k].v) /\ Text(s.kv[k].v) \in BulbStates /\ \E y \in b : y.v.id = s.kv[k].k /\ Text(s.kv[k].v) \notin y.v.states
      DupKeys(n) == IsMap(n) /\ ~NoDup([i \in DOMAIN n.kv |-> n.kv[i].k]) IN
  CASE what = "Rules" -> \E r \in Subs(doc, "RoadRulebook") :
                           \/ Has(r, "values") /\ Has(r, "ranges")
                           \/ \E v \in Subs(r, "values") \cup Subs(r, "ranges") : \E k \in {"related_rules", "related_unique_ids"} : Has(v, k) /\ OddRel(At(v, k))
    [] what = "Old" -> \E n \in Sub(doc, "RoadRulebook") : \E r \in Subs(n, "RightOfWayRules") :
                           \/ \E g \in Sub(r, "RelatedBulbGroups") : DupKeys(g) \/ (IsMap(g) /\ \E i \in DOMAIN g.kv : ~IsSeq(g.kv[i].v))
                           \/ \E s \in Sub(r, "States") : DupKeys(s)
    [] what = "Lights" -> \E l \in Subs(doc, "TrafficLights") :
                             \/ OddPose(l, "road_network")
                             \/ \E g \in Subs(l, "BulbGroups") : OddPose(g, "traffic_light") \/ \E b \in Subs(g, "Bulbs") : OddBulb(b) \/ OddPose(b, "bulb_group")
    [] what \in {"Rings", "OldRings"} ->
         \/ what = "Rings" /\ ~\E r \in rules : r.kind = "dv"
         \/ \E r \in Subs(doc, "PhaseRings") :
            \/ \E g \in Sub(r, "PhaseTransitionGraph") : IsMap(g) /\ \E i \in DOMAIN g.kv : \E x \in Subs(g, g.kv[i].k) : \E d \in Sub(x, "duration_until") : IsNum(d) /\ d.v <= 0
            \/ \E g \in Sub(r, "PhaseTransitionGraph") : DupKeys(g)
            \/ \E p \in Subs(r, "Phases") : \/ \E s \in Sub(p, "RightOfWayRuleStates") : DupKeys(s)
                                            \/ \E s \in Sub(p, "TrafficLightStates") : DupKeys(s) \/ OddState(s)
    [] OTHER -> FALSE

----------------------------------------------------------------------------
Empty == {}
Init == reg = {} /\ rules = {} /\ rows = {} /\ dirs = {} /\ lights = {} /\ rings = {} /\ inters = {} /\ prov = {} /\ act = [op |-> "new"]
Done(what, doc, ok) == act' = [op |-> "Load", what |-> what, doc |-> doc, pre |-> {}, res |-> IF ok THEN "ok" ELSE "throws"]
LoadRegistry(doc) == LET ok == RegistryOk(doc) IN
  reg' = (IF ok THEN Registry(doc) ELSE reg) /\ Done("Registry", doc, ok) /\ UNCHANGED <<rules, rows, dirs, lights, rings, inters, prov>>
LoadRules(doc) == LET ok == RulesOk(doc) IN
  /\ rules' = (IF ok THEN RulesOf(doc) ELSE rules) /\ rows' = (IF ok THEN {} ELSE rows) /\ dirs' = (IF ok THEN {} ELSE dirs)
  /\ Done("Rules", doc, ok) /\ UNCHANGED <<reg, lights, rings, inters, prov>>
LoadOld(doc) == LET ok == OldOk(doc) IN
  /\ rows' = (IF ok THEN RowsOf(doc) ELSE rows) /\ dirs' = (IF ok THEN DirsOf(doc) ELSE dirs)
  /\ rules' = IF ok THEN {StopRule(r) : r \in rows'} \cup {RowRule(r) : r \in rows'} ELSE rules
  /\ Done("Old", doc, ok) /\ UNCHANGED <<reg, lights, rings, inters, prov>>
LoadLights(doc) == LET ok == LightsOk(doc) IN
  lights' = (IF ok THEN LightsOf(doc) ELSE lights) /\ Done("Lights", doc, ok) /\ UNCHANGED <<reg, rules, rows, dirs, rings, inters, prov>>
LoadRings(doc, old) == LET ok == RingsOk(doc, old) IN
  rings' = (IF ok THEN RingsOf(doc, old) ELSE rings) /\ Done(IF old THEN "OldRings" ELSE "Rings", doc, ok) /\ UNCHANGED <<reg, rules, rows, dirs, lights, inters, prov>>
(* A new phase provider that knows the phases pre: set of [ring, phase]. *)
LoadInters(doc, pre) == LET ok == IntersOk(doc) IN
  /\ inters' = (IF ok THEN {InterOf(InterDocs(doc)[i]) : i \in DOMAIN InterDocs(doc)} ELSE inters)
  /\ prov' = IF ok THEN Started(InterDocs(doc), {[ring |-> x.ring, phase |-> x.phase, next |-> "", dur |-> 0] : x \in pre}) ELSE prov
  /\ act' = [op |-> "Load", what |-> "Inters", doc |-> doc, pre |-> pre, res |-> IF ok THEN "ok" ELSE "throws"]
  /\ UNCHANGED <<reg, rules, rows, dirs, lights, rings>>
Skip(what, doc) == act' = [op |-> "Load", what |-> what, doc |-> doc, pre |-> {}, res |-> "open"] /\ UNCHANGED <<reg, rules, rows, dirs, lights, rings, inters, prov>>
Load(what, doc, pre) ==
  IF Odd(what, doc) THEN Skip(what, doc) ELSE
  CASE what = "Registry" -> LoadRegistry(doc) [] what = "Rules" -> LoadRules(doc) [] what = "Old" -> LoadOld(doc)
    [] what = "Lights" -> LoadLights(doc) [] what = "Rings" -> LoadRings(doc, FALSE) [] what = "OldRings" -> LoadRings(doc, TRUE)
    [] what = "Inters" -> LoadInters(doc, pre)

----------------------------------------------------------------------------
(* What can be seen: everything. The order of related ids and of the values of derived rules is meaningless. *)
EncVal(v) == [v EXCEPT !.rel = RelSet(v)]
EncVals(vs) == {[i |-> i, v |-> EncVal(vs[i])] : i \in DOMAIN vs}
EncBag(vs) == {[i |-> 0, v |-> EncVal(vs[i])] : i \in DOMAIN vs}
Derived(r) == rows # {} /\ r.type \in {StopType, RowType}
Obs == [reg |-> {[type |-> r.type, kind |-> r.kind, values |-> EncVals(r.values)] : r \in reg},
        rules |-> {[kind |-> r.kind, id |-> r.id, type |-> r.type, zone |-> EncSeq(r.zone),
                    values |-> IF Derived(r) THEN EncBag(r.values) ELSE EncVals(r.values)] : r \in rules},
        rows |-> {[id |-> r.id, zone |-> EncSeq(r.zone), stop |-> r.stop, states |-> r.states, groups |-> r.groups] : r \in rows},
        dirs |-> dirs, lights |-> lights,
        rings |-> {[P!EncRing(D) EXCEPT !.phases = {[x EXCEPT !.dv = {[y EXCEPT !.val = EncVal(y.val)] : y \in x.dv}] : x \in P!EncRing(D).phases}] : D \in rings},
        inters |-> inters, prov |-> prov]

RingsSound == \A D \in rings : P!RingValid(D) /\ \A E \in rings : D = E \/ Disjoint(D, E)
ProvSound == \A x \in prov : (\E i \in inters : i.ring = x.ring) => \E D \in rings : D.id = x.ring /\ x.phase \in P!PIds(D) /\ (x.next # "" => x.next \in P!PIds(D))
IdsSound == \A q, r \in rules : q.id = r.id => q = r
RefusedKeeps == [][act'.res = "throws" => UNCHANGED <<reg, rules, rows, dirs, lights, rings, inters, prov>>]_vars
=============================================================================
