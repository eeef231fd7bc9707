------------------------------- MODULE Phases -------------------------------
(* Phase rings, the book of rings, the phase provider, the state providers that follow the current phase, and       *)
(* intersections.  Implementation: api::rules::PhaseRing, ManualPhaseRingBook, ManualPhaseProvider,                  *)
(* PhaseBasedRightOfWayRuleStateProvider, PhasedDiscreteRuleStateProvider, Intersection, IntersectionBook.           *)
(*                                                                                                                    *)
(* A ring description D is a record                                                                                   *)
(*   id, hasnext, phases: set of [i, id, hasb, rw: set of [rule, state], dv: set of [rule, val],                      *)
(*                                bulbs: set of [tl, bulb, state]],                                                   *)
(*   next: set of [phase, to: set of [i, id, dur]]       (dur 0: no duration given)                                   *)
EXTENDS Ranges, TLC

CONSTANTS Rings, RwRules, DvRules, Lights, Inters,   \* names offered to queries
          DvDesc,     \* set of [id, type, zone, states]: the discrete value rules of the rulebook (states: sequence)
          Points,     \* set of [p, x, y, lane, s]: where by-position queries are asked
          Lanes,      \* set of [id, y, len]: straight lanes of half width 1 along x
          Types, Regions

VARIABLES book,     \* ring descriptions in the ring book
          prov,     \* phase provider: [ring, phase, next, dur]
          manual,   \* states of discrete value rules set by hand: [rule, state, next, dur]
          inter,    \* intersections: [id, ring (a description), region]
          act
vars == <<book, prov, manual, inter, act>>

PIds(D) == {p.id : p \in D.phases}
PhaseOf(D, p) == CHOOSE x \in D.phases : x.id = p
RwKeys(p) == {x.rule : x \in p.rw}
DvKeys(p) == {x.rule : x \in p.dv}
BulbKeys(p) == {[tl |-> x.tl, bulb |-> x.bulb] : x \in p.bulbs}
RingRw(D) == UNION {RwKeys(p) : p \in D.phases}
RingDv(D) == UNION {DvKeys(p) : p \in D.phases}

(* A ring can be built of this description. *)
RingValid(D) ==
  /\ D.phases # {}
  /\ \A p, q \in D.phases : p.id = q.id => p = q
  /\ \A p, q \in D.phases : RwKeys(p) = RwKeys(q) /\ DvKeys(p) = DvKeys(q) /\ p.hasb = q.hasb /\ BulbKeys(p) = BulbKeys(q)
  /\ D.hasnext => /\ {n.phase : n \in D.next} = PIds(D)
                  /\ \A n \in D.next : \A t \in n.to : t.id \in PIds(D)

(* What a built ring reports. *)
NextOf(D, p) == IF D.hasnext THEN UNION {n.to : n \in {m \in D.next : m.phase = p}} ELSE {}
EncRing(D) == [id |-> D.id,
               phases |-> {[id |-> p.id, rw |-> p.rw, dv |-> p.dv, hasb |-> p.hasb, bulbs |-> p.bulbs] : p \in D.phases},
               next |-> {[phase |-> p, to |-> NextOf(D, p)] : p \in PIds(D)}]

Init == book = {} /\ prov = {} /\ manual = {} /\ inter = {} /\ act = [op |-> "new"]

----------------------------------------------------------------------------
(* The ring book. *)
Accepts(D) == /\ RingValid(D)
              /\ \A E \in book : E.id # D.id /\ RingRw(E) \cap RingRw(D) = {} /\ RingDv(E) \cap RingDv(D) = {}
AddRing(D) ==
  /\ book' = IF Accepts(D) THEN book \cup {D} ELSE book
  /\ act' = [op |-> "AddRing", ring |-> D, res |-> IF Accepts(D) THEN "ok" ELSE "throws"]
  /\ UNCHANGED <<prov, manual, inter>>
RemoveRing(id) ==
  /\ book' = {D \in book : D.id # id}
  /\ act' = [op |-> "RemoveRing", id |-> id, res |-> IF \E D \in book : D.id = id THEN "ok" ELSE "throws"]
  /\ UNCHANGED <<prov, manual, inter>>

(* The phase provider. It is given ring ids; it does not know the rings. *)
Has(ring) == \E x \in prov : x.ring = ring
PRec(ring, ph, nx, du) == [ring |-> ring, phase |-> ph, next |-> nx, dur |-> du]
ProvAdd(ring, ph, nx, du) ==
  LET ok == ~Has(ring) /\ (du # 0 => nx # "")
  IN /\ prov' = IF ok THEN prov \cup {PRec(ring, ph, nx, du)} ELSE prov
     /\ act' = [op |-> "ProvAdd", ring |-> ring, phase |-> ph, next |-> nx, dur |-> du, res |-> IF ok THEN "ok" ELSE "throws"]
     /\ UNCHANGED <<book, manual, inter>>
Set(ring, ph, nx, du) == {x \in prov : x.ring # ring} \cup {PRec(ring, ph, nx, du)}
ProvSet(ring, ph, nx, du) ==
  LET ok == Has(ring) /\ (du # 0 => nx # "")
  IN /\ prov' = IF ok THEN Set(ring, ph, nx, du) ELSE prov
     /\ act' = [op |-> "ProvSet", ring |-> ring, phase |-> ph, next |-> nx, dur |-> du, res |-> IF ok THEN "ok" ELSE "throws"]
     /\ UNCHANGED <<book, manual, inter>>

(* States set by hand (PhasedDiscreteRuleStateProvider::SetState). *)
StatesOf(rule) == UNION {{d.states[i] : i \in DOMAIN d.states} : d \in {x \in DvDesc : x.id = rule}}
ManualSet(rule, st, nx, du) ==
  LET ok == /\ st \in StatesOf(rule)
            /\ nx # "" => nx \in StatesOf(rule)
            /\ du # 0 => nx # "" /\ du > 0
  IN /\ manual' = IF ok THEN {m \in manual : m.rule # rule} \cup {[rule |-> rule, state |-> st, next |-> nx, dur |-> du]}
                  ELSE manual
     /\ act' = [op |-> "ManualSet", rule |-> rule, state |-> st, next |-> nx, dur |-> du, res |-> IF ok THEN "ok" ELSE "throws"]
     /\ UNCHANGED <<book, prov, inter>>

(* Intersections. *)
AddInter(id, D, region) ==
  LET ok == RingValid(D) /\ \A x \in inter : x.id # id
  IN /\ inter' = IF ok THEN inter \cup {[id |-> id, ring |-> D, region |-> region]} ELSE inter
     /\ act' = [op |-> "AddInter", id |-> id, ring |-> D, region |-> EncSeq(region), res |-> IF ok THEN "ok" ELSE "throws"]
     /\ UNCHANGED <<book, prov, manual>>
InterSet(id, ph, nx, du) ==
  \E x \in inter : x.id = id /\
    LET ring == x.ring.id
        ok == Has(ring) /\ (du # 0 => nx # "")
    IN /\ prov' = IF ok THEN Set(ring, ph, nx, du) ELSE prov
       /\ act' = [op |-> "InterSet", id |-> id, phase |-> ph, next |-> nx, dur |-> du, res |-> IF ok THEN "ok" ELSE "throws"]
       /\ UNCHANGED <<book, manual, inter>>

----------------------------------------------------------------------------
(* Answers. A result is [st, state, next, dur] with st in none, ok, throws. *)
Res(st, s, n, d) == [st |-> st, state |-> s, next |-> n, dur |-> d]
None == Res("none", "", "", 0)
Unknown == [any_of |-> {None, Res("throws", "", "", 0)}]   \* the provider's phase is not one of the ring's

Cur(ring) == CHOOSE x \in prov : x.ring = ring
Known(D) == LET x == Cur(D.id) IN x.phase \in PIds(D) /\ (x.next # "" => x.next \in PIds(D))
RwVal(D, p, rule) == (CHOOSE x \in PhaseOf(D, p).rw : x.rule = rule).state
DvVal(D, p, rule) == (CHOOSE x \in PhaseOf(D, p).dv : x.rule = rule).val

ManualRes(M, rule) == IF \E m \in M : m.rule = rule
                      THEN LET m == CHOOSE m \in M : m.rule = rule IN Res("ok", m.state, m.next, m.dur) ELSE None
RwRes(rule) ==
  IF \E D \in book : rule \in RingRw(D) /\ Has(D.id)
  THEN LET D == CHOOSE D \in book : rule \in RingRw(D)
           x == Cur(D.id)
       IN IF Known(D) THEN Res("ok", RwVal(D, x.phase, rule), IF x.next = "" THEN "" ELSE RwVal(D, x.next, rule), x.dur)
                      ELSE Unknown
  ELSE None
DvResM(M, rule) ==
  IF \E D \in book : rule \in RingDv(D) /\ Has(D.id)
  THEN LET D == CHOOSE D \in book : rule \in RingDv(D)
           x == Cur(D.id)
       IN IF Known(D) THEN Res("ok", DvVal(D, x.phase, rule), IF x.next = "" THEN "" ELSE DvVal(D, x.next, rule), x.dur)
                      ELSE Unknown
  ELSE ManualRes(M, rule)
DvRes(rule) == DvResM(manual, rule)
(* By position: the state of a rule of that type whose zone covers the position. *)
Covering(pt, ty) == {d \in DvDesc : d.type = ty /\ \E i \in DOMAIN d.zone : LIntersects(d.zone[i], R(pt.lane, pt.s, pt.s), 0)}
DvPos(pt, ty) == LET c == Covering(pt, ty) IN
                 IF c = {} THEN [any_of |-> {None}]
                 ELSE [any_of |-> UNION {IF DvRes(d.id) = Unknown THEN Unknown.any_of ELSE {DvRes(d.id)} : d \in c}]

(* An intersection follows the current phase of its ring. *)
IKnown(x) == Cur(x.ring.id).phase \in PIds(x.ring)
IPhase(x) == PhaseOf(x.ring, Cur(x.ring.id).phase)
EncInter(x) ==
  [id |-> x.id, region |-> EncSeq(x.region), ring |-> x.ring.id,
   phase |-> IF Has(x.ring.id) THEN LET c == Cur(x.ring.id) IN Res("ok", c.phase, c.next, c.dur) ELSE None,
   st |-> IF ~Has(x.ring.id) THEN "none" ELSE IF ~IKnown(x) THEN "throws" ELSE IF IPhase(x).hasb THEN "ok" ELSE "nobulbs",
   bulbs |-> IF Has(x.ring.id) /\ IKnown(x) THEN IPhase(x).bulbs ELSE {},
   rw |-> IF Has(x.ring.id) /\ IKnown(x) THEN IPhase(x).rw ELSE {},
   dv |-> IF Has(x.ring.id) /\ IKnown(x) THEN IPhase(x).dv ELSE {}]
IncRw(x, r) == Has(x.ring.id) /\ IKnown(x) /\ r \in RwKeys(IPhase(x))
IncDv(x, r) == Has(x.ring.id) /\ IKnown(x) /\ r \in DvKeys(IPhase(x))
IncTl(x, t) == Has(x.ring.id) /\ IKnown(x) /\ \E b \in IPhase(x).bulbs : b.tl = t
Abs(n) == IF n < 0 THEN -n ELSE n
(* The point lies on a lane of the region, at an s inside the range. *)
IncPt(x, pt) == \E i \in DOMAIN x.region : \E l \in Lanes :
                  /\ l.id = x.region[i].lane
                  /\ Abs(pt.y - l.y) <= 1 /\ pt.x >= 0 /\ pt.x <= l.len
                  /\ Lo(x.region[i]) <= pt.x /\ pt.x <= Hi(x.region[i])
(* Any intersection that includes the key may be the one found. *)
Found(Inc(_)) == LET hit == {x.id : x \in {y \in inter : Inc(y)}}
                     bad == \E x \in inter : Has(x.ring.id) /\ ~IKnown(x)
                 IN [any_of |-> IF bad THEN hit \cup {"throws", "none"} ELSE IF hit = {} THEN {"none"} ELSE hit]
FoundPt(pt) == LET hit == {x.id : x \in {y \in inter : IncPt(y, pt)}} IN [any_of |-> IF hit = {} THEN {"none"} ELSE hit]

Ref(S) == IF S = {} THEN "" ELSE (CHOOSE D \in S : TRUE).id
Obs == [rings |-> {D.id : D \in book},
        ring |-> {[id |-> r, d |-> {EncRing(D) : D \in {E \in book : E.id = r}}] : r \in Rings},
        findrw |-> {[rule |-> r, ring |-> Ref({D \in book : r \in RingRw(D)})] : r \in RwRules},
        finddv |-> {[rule |-> r, ring |-> Ref({D \in book : r \in RingDv(D)})] : r \in DvRules},
        prov |-> {[ring |-> r, p |-> IF Has(r) THEN LET c == Cur(r) IN Res("ok", c.phase, c.next, c.dur) ELSE None] : r \in Rings},
        rw |-> {[rule |-> r, r |-> RwRes(r)] : r \in RwRules},
        dv |-> {[rule |-> r, r |-> DvRes(r)] : r \in DvRules},
        pos |-> {[p |-> p.p, type |-> t, r |-> DvPos(p, t)] : p \in Points, t \in Types},
        inter |-> {EncInter(x) : x \in inter},
        get |-> {[id |-> i, found |-> \E x \in inter : x.id = i] : i \in Inters},
        inc |-> {[id |-> x.id,
                  rw |-> IF Has(x.ring.id) /\ ~IKnown(x) THEN {} ELSE {r \in RwRules : IncRw(x, r)},
                  dv |-> IF Has(x.ring.id) /\ ~IKnown(x) THEN {} ELSE {r \in DvRules : IncDv(x, r)},
                  tl |-> IF Has(x.ring.id) /\ ~IKnown(x) THEN {} ELSE {t \in Lights : IncTl(x, t)},
                  pt |-> {p.p : p \in {q \in Points : IncPt(x, q)}}] : x \in inter},
        fint |-> [rw |-> {[k |-> r, x |-> Found(LAMBDA x : IncRw(x, r))] : r \in RwRules},
                  dv |-> {[k |-> r, x |-> Found(LAMBDA x : IncDv(x, r))] : r \in DvRules},
                  tl |-> {[k |-> t, x |-> Found(LAMBDA x : IncTl(x, t))] : t \in Lights},
                  pt |-> {[k |-> p.p, x |-> FoundPt(p)] : p \in Points}],
        freg |-> {[q |-> i, found |-> {x.id : x \in {y \in inter : \E a \in DOMAIN y.region : \E b \in DOMAIN Regions[i].ranges :
                                                   LIntersects(y.region[a], Regions[i].ranges[b], Regions[i].tol)}}] : i \in DOMAIN Regions}]

(* Default providers: some phase of every ring with one of its next phases, and the first state of every rule. *)
(* (The documentation leaves open which phase; next is the first listed next phase.)                            *)
DefPhases(D) == {LET n == NextOf(D, p) IN
                 IF n = {} THEN Res("ok", p, "", 0)
                 ELSE LET f == CHOOSE t \in n : \A u \in n : t.i <= u.i IN Res("ok", p, f.id, f.dur) : p \in PIds(D)}
Defaults ==
  /\ act' = [op |-> "Defaults",
             res |-> [prov |-> {[ring |-> D.id, p |-> [any_of |-> DefPhases(D)]] : D \in book},
                      dv |-> {[rule |-> d.id, r |-> DvResM({[rule |-> e.id, state |-> e.states[1], next |-> "", dur |-> 0] : e \in DvDesc}, d.id)]
                               : d \in DvDesc}]]
  /\ UNCHANGED <<book, prov, manual, inter>>

----------------------------------------------------------------------------
(* Properties. *)
RingsValid == \A D \in book : RingValid(D)
OneRingPerRule == \A D, E \in book : D # E => D.id # E.id /\ RingRw(D) \cap RingRw(E) = {} /\ RingDv(D) \cap RingDv(E) = {}
(* An intersection reports for each rule exactly what the phase-based providers report when both use the same ring. *)
Agree == \A x \in inter : x.ring \in book /\ Has(x.ring.id) /\ Known(x.ring) =>
           /\ \A v \in EncInter(x).rw : RwRes(v.rule).state = v.state
           /\ \A v \in EncInter(x).dv : DvRes(v.rule).state = v.val
LegalManual == \A m \in manual : m.state \in StatesOf(m.rule) /\ (m.next # "" => m.next \in StatesOf(m.rule))
RejectedKeeps == [][IF act'.op = "Defaults" THEN TRUE ELSE act'.res = "throws" => UNCHANGED <<book, prov, manual, inter>>]_vars
=============================================================================
