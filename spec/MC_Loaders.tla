----------------------------- MODULE MC_Loaders -----------------------------
(* Every single edit of a description of each kind, loaded into a context of well-formed ones. *)
EXTENDS Loaders, Json
VARIABLE stage
mvars == <<vars, stage>>
MCLanes == {[id |-> "p", len |-> 10], [id |-> "q", len |-> 20]}
M(s) == [t |-> "map", kv |-> [i \in 1..(Len(s) \div 2) |-> [k |-> s[2 * i - 1], v |-> s[2 * i]]]]
S(s) == [t |-> "seq", v |-> s]
X(s) == [t |-> "str", v |-> s]
N(n) == [t |-> "num", v |-> n]
Ns(s) == S([i \in DOMAIN s |-> N(s[i])])
Xs(s) == S([i \in DOMAIN s |-> X(s[i])])

RegistryDoc == M(<<"RuleRegistry", M(<<
  "Right", S(<<M(<<"value", X("Go"), "severity", N(0), "related_rules", Xs(<<"Yield">>), "related_unique_ids", Xs(<<"Bulbs">>)>>), M(<<"value", X("Stop")>>),
               M(<<"severity", N(1), "value", X("Stop")>>)>>),
  "Light", S(<<M(<<"value", X("StopThenGo")>>)>>),
  "Speed", S(<<M(<<"range", Ns(<<1, 5>>), "description", X("slow"), "severity", N(1)>>), M(<<"description", X("fast"), "range", Ns(<<5, 9>>)>>)>>)>>)>>)
Rel(k, ids) == S(<<M(<<k, Xs(ids)>>)>>)
No == S(<<>>)
RulesDoc == M(<<"RoadRulebook", S(<<
  M(<<"id", X("r1"), "type", X("Right"), "zone", S(<<M(<<"lane_id", X("p")>>), M(<<"lane_id", X("q"), "s_range", Ns(<<12, 3>>)>>)>>),
      "values", S(<<M(<<"value", X("Go"), "related_rules", Rel("Yield", <<"r2", "r3">>), "related_unique_ids", Rel("Bulbs", <<"u">>)>>),
                    M(<<"value", X("Stop"), "severity", N(1), "related_rules", No, "related_unique_ids", No>>)>>)>>),
  M(<<"id", X("r2"), "type", X("Light"), "zone", S(<<M(<<"lane_id", X("q")>>)>>), "values", S(<<M(<<"value", X("StopThenGo"), "related_rules", No, "related_unique_ids", No>>)>>)>>),
  M(<<"id", X("r3"), "type", X("Speed"), "zone", S(<<M(<<"lane_id", X("p"), "s_range", Ns(<<0, 10>>)>>)>>),
      "ranges", S(<<M(<<"range", Ns(<<5, 9>>), "description", X("fast"), "severity", N(0), "related_rules", No, "related_unique_ids", No>>),
                    M(<<"range", Ns(<<1, 5>>), "description", X("slow"), "severity", N(1), "related_rules", Rel("Yield", <<"r1">>), "related_unique_ids", No>>)>>)>>)>>)>>)
OldDoc == M(<<"RoadRulebook", M(<<
  "RightOfWayRules", S(<<
    M(<<"ID", X("r1"), "States", M(<<"Go", No, "StopThenGo", Xs(<<"r2", "x">>)>>), "Zone", S(<<M(<<"Lane", X("p")>>), M(<<"Lane", X("q"), "SRange", Ns(<<12, 3>>)>>)>>),
        "ZoneType", X("StopAllowed"), "RelatedBulbGroups", M(<<"t", Xs(<<"g", "h">>), "u", Xs(<<"g">>)>>)>>),
    M(<<"ID", X("r2"), "States", M(<<"Stop", No, "Go", Xs(<<"r1">>)>>), "Zone", S(<<M(<<"Lane", X("q")>>)>>)>>)>>),
  "DirectionUsageRules", S(<<
    M(<<"ID", X("d1"), "Zone", M(<<"Lane", X("p")>>), "States", S(<<M(<<"ID", X("n"), "Severity", X("Strict"), "Type", X("WithS")>>),
                                                                   M(<<"ID", X("m"), "Severity", X("Preferred"), "Type", X("NoUse")>>)>>)>>)>>)>>)>>)
Pose(of, p, q) == M(<<"position_" \o of, Ns(p), "orientation_" \o of, Ns(q)>>)
LightsDoc == M(<<"TrafficLights", S(<<
  M(<<"ID", X("t"), "Pose", Pose("road_network", <<1, 2, 3>>, <<0, 1, 0, 0>>), "BulbGroups", S(<<
    M(<<"ID", X("g"), "Pose", Pose("traffic_light", <<0, 0, 4>>, <<1, 0, 0, 0>>), "Bulbs", S(<<
      M(<<"ID", X("b"), "Pose", Pose("bulb_group", <<0, 5, 0>>, <<0, 0, 1, 0>>), "Color", X("Red"), "Type", X("Round"), "States", Xs(<<"On", "Blinking">>),
          "BoundingBox", M(<<"min", Ns(<<-1, -2, -3>>), "max", Ns(<<1, 2, 3>>)>>)>>),
      M(<<"ID", X("c"), "Pose", Pose("bulb_group", <<0, 0, 0>>, <<0, 0, 0, 1>>), "Color", X("Green"), "Type", X("Arrow"), "ArrowOrientation", N(2)>>)>>)>>)>>)>>),
  M(<<"ID", X("u"), "Pose", Pose("road_network", <<0, 0, 0>>, <<1, 0, 0, 0>>), "BulbGroups", No>>)>>)>>)
Graph == M(<<"a", S(<<M(<<"ID", X("b"), "duration_until", N(3)>>), M(<<"ID", X("c")>>)>>), "b", S(<<M(<<"ID", X("a")>>)>>), "c", No>>)
LS(s) == M(<<"t", M(<<"g", s>>)>>)
RingsDoc == M(<<"PhaseRings", S(<<
  M(<<"ID", X("R"), "Rules", Xs(<<"r1">>), "Phases", S(<<
        M(<<"ID", X("a"), "RightOfWayRuleStates", M(<<"r1", X("Go")>>), "TrafficLightStates", LS(M(<<"b", X("On")>>))>>),
        M(<<"ID", X("b"), "TrafficLightStates", LS(M(<<"c", X("On"), "b", X("Blinking")>>))>>),
        M(<<"ID", X("c"), "RightOfWayRuleStates", M(<<"r1", X("Stop")>>), "TrafficLightStates", LS(M(<<>>))>>)>>),
      "PhaseTransitionGraph", Graph>>),
  M(<<"ID", X("Q"), "Rules", Xs(<<"r2">>), "Phases", S(<<M(<<"ID", X("a"), "RightOfWayRuleStates", M(<<>>)>>)>>)>>)>>)>>)
OldRingsDoc == M(<<"PhaseRings", S(<<
  M(<<"ID", X("R"), "Rules", Xs(<<"r1">>), "Phases", S(<<
        M(<<"ID", X("a"), "RightOfWayRuleStates", M(<<"r1", X("Go")>>), "TrafficLightStates", LS(M(<<"b", X("On")>>))>>),
        M(<<"ID", X("b"), "RightOfWayRuleStates", M(<<>>), "TrafficLightStates", LS(M(<<"c", X("On"), "b", X("Blinking")>>))>>),
        M(<<"ID", X("c"), "RightOfWayRuleStates", M(<<"r1", X("StopThenGo")>>), "TrafficLightStates", LS(M(<<>>))>>)>>),
      "PhaseTransitionGraph", Graph>>),
  M(<<"ID", X("Q"), "Rules", Xs(<<"r2">>), "Phases", S(<<M(<<"ID", X("a"), "RightOfWayRuleStates", M(<<>>)>>)>>)>>)>>)>>)
IntersDoc == M(<<"Intersections", S(<<M(<<"ID", X("i"), "PhaseRing", X("R"), "InitialPhase", X("a")>>), M(<<"ID", X("j"), "PhaseRing", X("Q"), "InitialPhase", X("a")>>),
                                      M(<<"ID", X("k"), "PhaseRing", X("R"), "InitialPhase", X("b")>>)>>)>>)

(* All documents one edit away. *)
Scalars == {"?", ""}
Sub(s, i, x) == [s EXCEPT ![i] = x]
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Words(_)
Words(n) == IF IsMap(n) THEN UNION {Words(n.kv[i].v) : i \in DOMAIN n.kv} ELSE IF IsSeq(n) THEN UNION {Words(n.v[i]) : i \in DOMAIN n.v}
            ELSE IF IsNum(n) THEN {} ELSE {n.v}
RECURSIVE Edits(_, _)
Edits(n, words) ==
  {n2 \in {M(<<>>), S(<<>>), X("?")} : n2.t # n.t} \cup
  CASE IsMap(n) -> UNION {{[n EXCEPT !.kv = Cut(n.kv, i)], [n EXCEPT !.kv = Sub(n.kv, i, [k |-> "?", v |-> n.kv[i].v])],
                           [n EXCEPT !.kv = Sub(n.kv, i, [k |-> "", v |-> n.kv[i].v])], [n EXCEPT !.kv = Append(Cut(n.kv, i), n.kv[i])]}
                          \cup {[n EXCEPT !.kv = Sub(n.kv, i, [k |-> n.kv[i].k, v |-> x])] : x \in Edits(n.kv[i].v, words)} : i \in DOMAIN n.kv}
    [] IsSeq(n) -> UNION {{[n EXCEPT !.v = Cut(n.v, i)], [n EXCEPT !.v = Append(n.v, n.v[i])], [n EXCEPT !.v = Append(Cut(n.v, i), n.v[i])]}
                          \cup {[n EXCEPT !.v = Sub(n.v, i, x)] : x \in Edits(n.v[i], words)} : i \in DOMAIN n.v}
    [] IsNum(n) -> {N(x) : x \in {-1, 0, 7, 11, 21} \ {n.v}}
    [] OTHER -> {X(x) : x \in (words \cup {"?", ""}) \ {n.v}} \cup {N(1)}
AllEdits(d) == Edits(d, Words(d))

Chain == [A |-> <<[w |-> "Registry", d |-> RegistryDoc], [w |-> "Rules", d |-> RulesDoc], [w |-> "Lights", d |-> LightsDoc],
                  [w |-> "Rings", d |-> RingsDoc], [w |-> "Inters", d |-> IntersDoc]>>,
          B |-> <<[w |-> "Old", d |-> OldDoc], [w |-> "Lights", d |-> LightsDoc], [w |-> "OldRings", d |-> OldRingsDoc], [w |-> "Inters", d |-> IntersDoc]>>]
(* stage: the chain, how many of its documents are loaded, and whether one of them was edited *)
MCInit == Init /\ stage = [c |-> "", n |-> 0, edited |-> FALSE]
Step(c, n) ==
  LET x == Chain[c][n] IN
  \/ Load(x.w, x.d, {}) /\ stage' = [c |-> c, n |-> n, edited |-> FALSE]
  \/ \E d \in AllEdits(x.d) : (x.w # "Lights" \/ c = "A") /\ ~Odd(x.w, d) /\ Load(x.w, d, {})
                              /\ stage' = IF act'.res = "ok" THEN [c |-> c, n |-> n, edited |-> TRUE] ELSE stage
  \/ x.w = "Inters" /\ Load(x.w, x.d, {[ring |-> "Q", phase |-> "a"], [ring |-> "Z", phase |-> "z"]}) /\ stage' = [c |-> c, n |-> n, edited |-> TRUE]
Next == \/ stage.n = 0 /\ \E c \in {"A", "B"} : Step(c, 1)
        \/ stage.n > 0 /\ ~stage.edited /\ stage.n < Len(Chain[stage.c]) /\ Step(stage.c, stage.n + 1)
Spec == MCInit /\ [][Next]_mvars
View == [c |-> stage.c, n |-> stage.n, e |-> stage.edited, o |-> Obs]
BaseOk == [][(stage'.n > stage.n /\ ~stage'.edited) => act'.res = "ok"]_mvars
ASSUME PrintT(<<"C", ToJson([lanes |-> MCLanes])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(stage.n = 0)>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
