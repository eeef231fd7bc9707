----------------------------- MODULE Validator -----------------------------
(* ValidateRoadNetwork and RoadGeometry::CheckInvariants.  The geometry is given and may be inconsistent: an element may
   claim another owner than the one that lists it, miss in the index, miss branch points; lanes are straight and their
   headings at either end may be off by a few small angles (t0, t1).  Rules, lights and rings come and go through their
   books.  Lengths are in units; the linear tolerance is lin + 1/2 units, the angular one is 1.8 of the small angles.
   juncs: [id, o, owner, inx]      segs: [id, o, j, owner, inx]          ("o": position among the siblings)
   lanes: [id, o, seg, owner, idx, inx, sb, fb, x, y, q, len, t0, t1]    bps: [id, o, owner, inx, null, a, b]
   rules: [kind, id, zone, vals, lights]; lights: [id, groups]; rings: [id, phases] *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES geo, rules, lights, rings, act
vars == <<geo, rules, lights, rings, act>>
Options == {"dir", "inv", "hier", "groups", "zones", "pdr", "pbs", "rel"}
OneOf(S) == CHOOSE x \in S : TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
LaneIds == {l.id : l \in geo.lanes}
LaneOf(id) == OneOf({l \in geo.lanes : l.id = id})
SegOf(id) == OneOf({s \in geo.segs : s.id = id})
Dx(q) == CASE q = 0 -> 1 [] q = 2 -> -1 [] OTHER -> 0
Dy(q) == CASE q = 1 -> 1 [] q = 3 -> -1 [] OTHER -> 0
--------------------------------------------------------------------------
(* Poses: where one is at s and where one heads when travelling with (rev = 0) or against (rev = 1) the lane. *)
Tilt(l, s) == IF 2 * s < l.len THEN l.t0 ELSE l.t1
PoseAt(l, s, rev) == [x |-> l.x + Dx(l.q) * s, y |-> l.y + Dy(l.q) * s, q |-> (l.q + 2 * rev) % 4, t |-> Tilt(l, s)]
Near(p, r) == 4 * ((p.x - r.x) * (p.x - r.x) + (p.y - r.y) * (p.y - r.y)) < (2 * geo.lin + 1) * (2 * geo.lin + 1)
Aligned(p, r) == p.q = r.q /\ Abs(p.t - r.t) <= 1
(* The pose of a lane end at a branch point, heading from its A side to its B side: lanes on the A side come in. *)
EndPose(e, side) ==
  LET l == LaneOf(e.lane) IN PoseAt(l, IF e.end = "start" THEN 0 ELSE l.len, IF (e.end = "finish") = (side = "a") THEN 0 ELSE 1)
Poses(b) == {EndPose(e, "a") : e \in b.a} \cup {EndPose(e, "b") : e \in b.b}
(* The lane ends at a branch point agree when all are close to each other; they certainly do not when none is close to all. *)
Agree(P) == \A p, r \in P : Near(p, r) /\ Aligned(p, r)
Disagree(P) == (\A r \in P : \E p \in P : ~Near(p, r)) \/ (\A r \in P : \E p \in P : ~Aligned(p, r))
Owned == /\ \A b \in geo.bps : b.owner = "rg"
         /\ \A j \in geo.juncs : j.owner = "rg"
         /\ \A s \in geo.segs : s.owner = s.j
         /\ \A l \in geo.lanes : l.owner = l.seg
Invariant == /\ Owned
             /\ \A l \in geo.lanes : l.idx = l.o
             /\ \A b \in geo.bps : Poses(b) # {} /\ Agree(Poses(b))
NoInvariant == \/ ~Owned
               \/ \E l \in geo.lanes : l.idx # l.o
               \/ \E b \in geo.bps : Poses(b) = {} \/ Disagree(Poses(b))
--------------------------------------------------------------------------
Hierarchy ==
  /\ Owned /\ geo.juncs # {} /\ Cardinality(geo.bps) >= 2
  /\ \A j \in geo.juncs : j.inx /\ \E s \in geo.segs : s.j = j.id
  /\ \A s \in geo.segs : s.inx /\ \E l \in geo.lanes : l.seg = s.id
  /\ \A l \in geo.lanes : l.inx /\ l.sb # "" /\ l.fb # ""
  /\ \A b \in geo.bps : b.inx /\ ~b.null /\ (b.a \cup b.b) # {}
OfKind(k) == {r \in rules : r.kind = k}
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x
Covered(l) == \E r \in OfKind("dir") : \E z \in r.zone : z.lane = l.id /\ Min(z.s0, z.s1) <= l.len
Coverage(L) == \A l \in L : Covered(l)
Indexed(id) == \E l \in geo.lanes : l.id = id /\ l.inx
Joint(z, w) == LET a == LaneOf(z.lane)  b == LaneOf(w.lane)
                   p == PoseAt(a, z.s1, IF z.s1 < z.s0 THEN 1 ELSE 0)  r == PoseAt(b, w.s0, IF w.s1 < w.s0 THEN 1 ELSE 0)
               IN Near(p, r) /\ Aligned(p, r)
(* Zones are sets of [i, lane, s0, s1]. *)
Contiguous(Z) == \A z, w \in Z : (w.i = z.i + 1) => (Indexed(z.lane) /\ Indexed(w.lane) /\ Joint(z, w))
LightIds == {t.id : t \in lights}
Groups(t) == UNION {x.groups : x \in {y \in lights : y.id = t}}
Phases == UNION {r.phases : r \in rings}
RuleIds == {r.id : r \in OfKind("dv") \cup OfKind("rv")}
(* A check passes (must) or fails (must not); where neither holds, both are right. *)
Pass(o) ==
  CASE o = "dir" -> Coverage(geo.lanes)
    [] o = "inv" -> Invariant
    [] o = "hier" -> Hierarchy
    [] o = "groups" -> \A r \in OfKind("row") : \A x \in r.lights :
                          x.id \in LightIds /\ \A g \in x.groups : \E k \in Groups(x.id) : k.id = g
    [] o = "zones" -> \A r \in OfKind("dv") \cup OfKind("rv") \cup OfKind("row") :
                          Contiguous(r.zone) /\ \A z \in r.zone : Indexed(z.lane)
    [] o = "pdr" -> \A p \in Phases : \A x \in p.dv : \E r \in OfKind("dv") : r.id = x.rule /\ x.val \in r.vals
    [] o = "pbs" -> \A p \in Phases : \A x \in p.bulbs : \E g \in Groups(x.light) : g.id = x.group
                          /\ \E b \in g.bulbs : b.id = x.bulb /\ x.state \in b.states
    [] o = "rel" -> \A r \in OfKind("dv") \cup OfKind("rv") : \A v \in r.vals : v.rel \subseteq RuleIds
Fail(o) ==
  CASE o = "dir" -> ~Coverage({l \in geo.lanes : l.inx})
    [] o = "inv" -> NoInvariant
    [] o = "zones" -> \E r \in OfKind("dv") \cup OfKind("rv") \cup OfKind("row") : ~Contiguous(r.zone)
    [] OTHER -> ~Pass(o)
Verdict(opts) == IF \A o \in opts : Pass(o) THEN "ok" ELSE IF \E o \in opts : Fail(o) THEN "throws" ELSE [any_of |-> {"ok"} \cup {"throws"}]
--------------------------------------------------------------------------
NoNull == \A b \in geo.bps : ~b.null
Validate(opts) ==
  /\ opts \subseteq Options /\ ("inv" \in opts => NoNull)
  /\ act' = [op |-> "Validate", opts |-> opts, res |-> Verdict(opts)] /\ UNCHANGED <<geo, rules, lights, rings>>
CheckInvariants ==
  /\ NoNull
  /\ act' = [op |-> "CheckInvariants", res |-> IF Invariant THEN "clean" ELSE IF NoInvariant THEN "reports"
                                               ELSE [any_of |-> {"clean"} \cup {"reports"}]]
  /\ UNCHANGED <<geo, rules, lights, rings>>
IsContiguous(z, w) ==
  /\ act' = [op |-> "IsContiguous", z |-> z, w |-> w,
             res |-> IF ~Indexed(z.lane) \/ ~Indexed(w.lane) THEN "throws" ELSE IF Joint(z, w) THEN "yes" ELSE "no"]
  /\ UNCHANGED <<geo, rules, lights, rings>>
(* Discrete and range value rules share their ids. *)
SameKind(r, x) == r.id = x.id /\ (r.kind = x.kind \/ {r.kind, x.kind} = {"dv", "rv"})
RulesOf(r) == UNION {{x.rule : x \in p.dv} : p \in r.phases}
AddRule(r) == /\ ~\E x \in rules : SameKind(r, x)
              /\ rules' = rules \cup {r} /\ act' = [op |-> "AddRule", rule |-> r, res |-> "ok"] /\ UNCHANGED <<geo, lights, rings>>
RemoveRule(k, id) == /\ \E x \in rules : x.kind = k /\ x.id = id
                     /\ rules' = {x \in rules : x.kind # k \/ x.id # id}
                     /\ act' = [op |-> "RemoveRule", kind |-> k, id |-> id, res |-> "ok"] /\ UNCHANGED <<geo, lights, rings>>
AddLight(t) == /\ t.id \notin LightIds
               /\ lights' = lights \cup {t} /\ act' = [op |-> "AddLight", light |-> t, res |-> "ok"] /\ UNCHANGED <<geo, rules, rings>>
(* A rule belongs to one ring at most. *)
AddRing(r) == /\ ~\E x \in rings : x.id = r.id \/ RulesOf(x) \cap RulesOf(r) # {}
              /\ rings' = rings \cup {r} /\ act' = [op |-> "AddRing", ring |-> r, res |-> "ok"] /\ UNCHANGED <<geo, rules, lights>>
RemoveRing(id) == /\ \E x \in rings : x.id = id
                  /\ rings' = {x \in rings : x.id # id}
                  /\ act' = [op |-> "RemoveRing", id |-> id, res |-> "ok"] /\ UNCHANGED <<geo, rules, lights>>
Load(g, R, T, P) == /\ geo' = g /\ rules' = R /\ lights' = T /\ rings' = P
                    /\ act' = [op |-> "Load", geo |-> g, rules |-> R, lights |-> T, rings |-> P, res |-> "ok"]
Empty == [juncs |-> {}, segs |-> {}, lanes |-> {}, bps |-> {}, lin |-> 0]
Init == geo = Empty /\ rules = {} /\ lights = {} /\ rings = {} /\ act = [op |-> "none"]
(* What validation must leave alone. *)
Obs == [rules |-> {[kind |-> r.kind, id |-> r.id] : r \in rules}, lights |-> LightIds, rings |-> {r.id : r \in rings}]
--------------------------------------------------------------------------
NotBoth == \A o \in Options : ~(Pass(o) /\ Fail(o))
=============================================================================
