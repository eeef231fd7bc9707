---------------------------- MODULE MC_Validator ----------------------------
EXTENDS Validator, Json
CONSTANT Rich
J(id, o) == [id |-> id, o |-> o, owner |-> "rg", inx |-> TRUE]
Sg(id, o, j) == [id |-> id, o |-> o, j |-> j, owner |-> j, inx |-> TRUE]
L(id, o, s, sb, fb, x, y, q) == [id |-> id, o |-> o, seg |-> s, owner |-> s, idx |-> o, inx |-> TRUE, sb |-> sb, fb |-> fb,
                                 x |-> x, y |-> y, q |-> q, len |-> 4, t0 |-> 0, t1 |-> 0]
E(l, e) == [lane |-> l, end |-> e]
B(id, o, a, b) == [id |-> id, o |-> o, owner |-> "rg", inx |-> TRUE, null |-> FALSE, a |-> a, b |-> b]
Base == [juncs |-> {J("J1", 1), J("J2", 2)}, segs |-> {Sg("S1", 1, "J1"), Sg("S2", 1, "J2")},
         lanes |-> {L("A", 1, "S1", "P0", "P1", 0, 0, 0), L("B", 2, "S1", "Q0", "Q1", 0, 2, 0),
                    L("C", 1, "S2", "P1", "P2", 4, 0, 0), L("D", 2, "S2", "Q2", "Q1", 8, 2, 2)},
         bps |-> {B("P0", 1, {}, {E("A", "start")}), B("P1", 2, {E("A", "finish")}, {E("C", "start")}), B("P2", 3, {E("C", "finish")}, {}),
                  B("Q0", 4, {E("B", "start")}, {}), B("Q1", 5, {E("B", "finish")}, {E("D", "finish")}), B("Q2", 6, {}, {E("D", "start")})},
         lin |-> 0]
(* The geometry with the element id of one sort replaced. *)
With(sort, id, f(_)) == [Base EXCEPT ![sort] = {IF x.id = id THEN f(x) ELSE x : x \in @}]
Owner(o) == [x \in {1} |-> o]
Geos ==
  {Base, [Base EXCEPT !.lin = 1]}
  \cup {LET f(x) == [x EXCEPT !.owner = "other"] IN With("juncs", "J1", f)} \cup {LET f(x) == [x EXCEPT !.inx = FALSE] IN With("juncs", j, f) : j \in {"J1", "J2"}}
  \cup {LET f(x) == [x EXCEPT !.owner = "J1"] IN With("segs", "S2", f)} \cup {LET f(x) == [x EXCEPT !.inx = FALSE] IN With("segs", s, f) : s \in {"S1", "S2"}}
  \cup {LET f(x) == [x EXCEPT !.owner = "S1"] IN With("lanes", "D", f)} \cup {LET f(x) == [x EXCEPT !.inx = FALSE] IN With("lanes", s, f) : s \in {"A", "D"}}
  \cup {LET f(x) == [x EXCEPT !.idx = i] IN With("lanes", "D", f) : i \in {0, 1, 3}}
  \cup {LET f(x) == [x EXCEPT !.sb = ""] IN With("lanes", s, f) : s \in {"A", "D"}} \cup {LET f(x) == [x EXCEPT !.fb = ""] IN With("lanes", "C", f)}
  \cup {LET f(x) == [x EXCEPT !.owner = "other"] IN With("bps", b, f) : b \in {"P1", "Q2"}} \cup {LET f(x) == [x EXCEPT !.inx = FALSE] IN With("bps", b, f) : b \in {"P0", "Q2"}}
  \cup {LET f(x) == [x EXCEPT !.null = TRUE] IN With("bps", b, f) : b \in {"P0", "P2"}} \cup {LET f(x) == [x EXCEPT !.a = {}, !.b = {}] IN With("bps", b, f) : b \in {"P0", "P2"}}
  \cup {LET f(x) == [x EXCEPT !.a = x.b, !.b = x.a] IN With("bps", "Q1", f)} \cup {LET f(x) == [x EXCEPT !.a = x.a \cup x.b, !.b = {}] IN With("bps", b, f) : b \in {"P1", "Q1"}}
  \cup {LET f(x) == [x EXCEPT !.x = @ + d] IN [With("lanes", l, f) EXCEPT !.lin = n] : d \in {-1, 1, 2}, l \in {"C", "D"}, n \in {0, 1}}
  \cup {LET f(x) == [x EXCEPT !.y = @ - 1] IN With("lanes", "B", f)}
  \cup {LET f(x) == [x EXCEPT !.t0 = t] IN With("lanes", l, f) : t \in {-2, 1, 2}, l \in {"C", "D"}}
  \cup {LET f(x) == [x EXCEPT !.t1 = t] IN With("lanes", l, f) : t \in {-2, -1, 2}, l \in {"A", "D"}}
  \cup {[Base EXCEPT !.juncs = @ \cup {J("J3", 3)}], [Base EXCEPT !.segs = @ \cup {Sg("S3", 2, "J2")}], Empty,
        [Base EXCEPT !.lanes = {L("A", 1, "S1", "P0", "P0", 0, 0, 0)}, !.segs = {Sg("S1", 1, "J1")}, !.juncs = {J("J1", 1)}, !.bps = {B("P0", 1, {E("A", "start")}, {})}]}
Z1(l, s0, s1) == [i |-> 1, lane |-> l, s0 |-> s0, s1 |-> s1]
Z2(l, s0, s1) == [i |-> 2, lane |-> l, s0 |-> s0, s1 |-> s1]
V(t, sev, rel) == [text |-> t, sev |-> sev, rel |-> rel]
R(k, id, zone, vals, ls) == [kind |-> k, id |-> id, zone |-> zone, vals |-> vals, lights |-> ls]
Dir(id, l, s0, s1) == R("dir", id, {Z1(l, s0, s1)}, {}, {})
Dv(id, zone, vals) == R("dv", id, zone, vals, {})
Row(id, ls) == R("row", id, {Z1("A", 0, 4)}, {}, ls)
Li(id, groups) == [id |-> id, groups |-> groups]
Covers == {Dir("a", "A", 0, 4), Dir("b", "B", 1, 2), Dir("c", "C", 4, 0), Dir("d", "D", 0, 4)}
AB == {V("x", 0, {}), V("y", 0, {})}
BaseRules == Covers \cup {Dv("r1", {Z1("A", 0, 4), Z2("C", 0, 4)}, AB)}
T1 == [id |-> "t1", groups |-> {[id |-> "g", bulbs |-> {[id |-> "b", states |-> {"On", "Off"}]}], [id |-> "h", bulbs |-> {[id |-> "c", states |-> {"On"}]}]}]
T2 == [id |-> "t2", groups |-> {[id |-> "k", bulbs |-> {[id |-> "b", states |-> {"Blinking"}]}]}]
Zones == {{Z1("A", 0, 4), Z2("C", 0, 4)}, {Z1("A", 0, 4), Z2("C", 1, 4)}, {Z1("A", 0, 3), Z2("A", 3, 4)}, {Z1("B", 0, 4), Z2("D", 4, 0)}, {Z1("B", 0, 4), Z2("D", 4, 4)},
          {Z1("D", 0, 4), Z2("B", 4, 0)}, {Z1("D", 0, 4), Z2("B", 4, 4)}, {Z1("C", 4, 0), Z2("A", 4, 0)}, {Z1("C", 4, 0), Z2("A", 0, 4)}, {Z1("A", 0, 4), Z2("A", 4, 0)},
          {Z1("Z", 0, 4)}, {Z1("A", 0, 4), Z2("Z", 0, 4)}, {Z1("Z", 0, 4), Z2("A", 0, 4)}, {Z1("A", 0, 4)}, {Z1("B", 0, 4), Z2("C", 0, 4)}}
NewRules == {Dv("n", z, AB) : z \in Zones} \cup {R("rv", "n", z, AB, {}) : z \in Zones} \cup {R("row", "n", z, {}, {}) : z \in Zones}
            \cup {R(k, "m", {Z1("A", 0, 4)}, {V("x", 0, {}), V("y", 0, rel)}, {}) : k \in {"dv", "rv"}, rel \in {{"m"}, {"r1"}, {"r1", "m"}, {"?"}, {"r1", "?"}, {"a"}}}
            \cup {Row("o", ls) : ls \in {{Li("t1", {"g"})}, {Li("t1", {"g", "h"}), Li("t2", {"k"})}, {Li("t1", {"k"})}, {Li("t2", {"k"})}, {Li("t2", {})}, {Li("t1", {"g", "?"})}, {Li("?", {"g"})}}}
            \cup {Dir("e", "A", 0, 4), Dir("e", "D", 9, 9)}
Ph(id, dv, bulbs) == [id |-> id, dv |-> dv, bulbs |-> bulbs]
X(r, v) == [rule |-> r, val |-> v]
Bu(t, g, b, s) == [light |-> t, group |-> g, bulb |-> b, state |-> s]
NewRings == {[id |-> "p", phases |-> P] : P \in
  {{Ph("1", {X("r1", V("x", 0, {}))}, {})}, {Ph("1", {X("r1", V("x", 0, {}))}, {}), Ph("2", {X("r1", V("z", 0, {}))}, {})},
   {Ph("1", {X("r1", V("x", 1, {}))}, {})}, {Ph("1", {X("r1", V("x", 0, {"r1"}))}, {})}, {Ph("1", {X("?", V("x", 0, {}))}, {})},
   {Ph("1", {X("n", V("x", 0, {}))}, {})}, {Ph("1", {X("m", V("y", 0, {"m"}))}, {})}, {Ph("1", {X("a", V("x", 0, {}))}, {})},
   {Ph("1", {}, {Bu("t1", "g", "b", "On")}), Ph("2", {}, {Bu("t1", "g", "b", "Blinking")})}, {Ph("1", {}, {Bu("t1", "g", "b", "Off"), Bu("t1", "h", "c", "On")})},
   {Ph("1", {}, {Bu("t2", "k", "b", "Blinking")})}, {Ph("1", {}, {Bu("t1", "k", "b", "Blinking")})}, {Ph("1", {}, {Bu("t1", "h", "b", "On")})}}}
OptSets == {{}, Options} \cup {{o} : o \in Options} \cup {Options \ {o} : o \in Options} \cup IF Rich THEN {{o, p} : o, p \in Options} ELSE {}
MCInit == Init
Loaded == geo.juncs # {} \/ rules # {}
Changes == Cardinality(rules \ BaseRules) + Cardinality(BaseRules \ rules) + Cardinality(rings) + Cardinality(lights \ {T1})
Next ==
  \/ (~Loaded /\ \E g \in Geos : Load(g, BaseRules, {T1}, {}))
  \/ (Loaded /\ \E o \in OptSets : Validate(o)) \/ CheckInvariants
  \/ (Loaded /\ rules = BaseRules /\ rings = {} /\ lights = {T1} /\ \E z \in Zones : Cardinality(z) = 2 /\ LET z1 == OneOf({x \in z : x.i = 1})  z2 == OneOf({x \in z : x.i = 2}) IN IsContiguous(z1, z2))
  \/ (Loaded /\ geo = Base /\ Changes < IF Rich THEN 2 ELSE 1) /\
     (\/ \E r \in NewRules : AddRule(r)
      \/ \E r \in BaseRules : RemoveRule(r.kind, r.id)
      \/ AddLight(T2)
      \/ \E r \in NewRings : AddRing(r))
  \/ (Changes = 1 /\ geo = Base /\ ((\E r \in rings : RemoveRing(r.id)) \/ \E r \in rules \ BaseRules : RemoveRule(r.kind, r.id)))
Spec == MCInit /\ [][Next]_vars
View == [g |-> geo, r |-> rules, t |-> lights, p |-> rings]
ASSUME PrintT(<<"C", ToJson([u |-> 4, rpy |-> <<0, 0, 0>>])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(~Loaded)>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
(* The base network is valid, and the checks judge what is theirs: rules and lights do not matter to the geometry's. *)
BaseValid == (geo = Base /\ rules = BaseRules /\ rings = {}) => \A o \in Options : Pass(o)
=============================================================================
