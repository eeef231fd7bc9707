------------------------------ MODULE Providers ------------------------------
(* Rule state providers whose states are set by hand.  Implementation: ManualDiscreteValueRuleStateProvider,          *)
(* ManualRangeValueRuleStateProvider, ManualRightOfWayRuleStateProvider, maliput/base/rule_tools.cc.                  *)
(* The rulebook behind the providers may change between calls.                                                        *)
EXTENDS Ranges, Values, TLC

CONSTANTS Ids, RwIds, Types,
          Points      \* set of [p, lane, s, tol]: by-position queries
VARIABLES rules,      \* rules of the rulebook: [kind, id, type, zone, states]
          st,         \* states set: [kind, id, state, next, dur]; next is a set of at most one value; dur 0: none
          rw,         \* right of way: [id, state]
          act
vars == <<rules, st, rw, act>>

Init == rules = {} /\ st = {} /\ rw = {} /\ act = [op |-> "new"]

AddRule(kind, id, ty, z, vs) ==
  /\ StatesOk(vs) /\ \A r \in rules : r.id # id
  /\ rules' = rules \cup {[kind |-> kind, id |-> id, type |-> ty, zone |-> z, states |-> vs]}
  /\ act' = [op |-> "AddRule", kind |-> kind, id |-> id, type |-> ty, zone |-> EncSeq(z), values |-> EncValues(vs), res |-> "ok"]
  /\ UNCHANGED <<st, rw>>
RemoveRule(id) ==
  /\ \E r \in rules : r.id = id
  /\ rules' = {r \in rules : r.id # id}
  /\ act' = [op |-> "RemoveRule", id |-> id, res |-> "ok"]
  /\ UNCHANGED <<st, rw>>

Legal(kind, id, v) == \E r \in rules : r.kind = kind /\ r.id = id /\ \E i \in DOMAIN r.states : SameValue(r.states[i], v)
SetState(kind, id, v, next, du) ==
  LET ok == /\ Legal(kind, id, v)
            /\ \A n \in next : Legal(kind, id, n)
            /\ du # 0 => next # {} /\ du > 0
  IN /\ st' = IF ok THEN {s \in st : s.kind # kind \/ s.id # id} \cup {[kind |-> kind, id |-> id, state |-> v, next |-> next, dur |-> du]}
              ELSE st
     /\ act' = [op |-> "SetState", kind |-> kind, id |-> id, state |-> v, next |-> next, dur |-> du, res |-> IF ok THEN "ok" ELSE "throws"]
     /\ UNCHANGED <<rules, rw>>
(* A time to next of zero is given explicitly (du = 0 means none). *)
SetStateZero(kind, id, v, next) ==
  /\ act' = [op |-> "SetStateZero", kind |-> kind, id |-> id, state |-> v, next |-> next, res |-> "throws"]
  /\ UNCHANGED <<rules, st, rw>>

RwAdd(id, s) ==
  /\ rw' = IF \E x \in rw : x.id = id THEN rw ELSE rw \cup {[id |-> id, state |-> s]}
  /\ act' = [op |-> "RwAdd", id |-> id, state |-> s, res |-> IF \E x \in rw : x.id = id THEN "throws" ELSE "ok"]
  /\ UNCHANGED <<rules, st>>
RwSet(id, s) ==
  /\ rw' = IF \E x \in rw : x.id = id THEN {x \in rw : x.id # id} \cup {[id |-> id, state |-> s]} ELSE rw
  /\ act' = [op |-> "RwSet", id |-> id, state |-> s, res |-> IF \E x \in rw : x.id = id THEN "ok" ELSE "throws"]
  /\ UNCHANGED <<rules, st>>

----------------------------------------------------------------------------
(* Related ids are compared as sets; what was set is reported unchanged. *)
Res(s) == [st |-> "ok", state |-> {s.state}, next |-> s.next, dur |-> s.dur]
None == [st |-> "none", state |-> {}, next |-> {}, dur |-> 0]
Throws == [st |-> "throws", state |-> {}, next |-> {}, dur |-> 0]
StateOf(kind, id) == LET x == {s \in st : s.kind = kind /\ s.id = id} IN IF x = {} THEN None ELSE Res(CHOOSE s \in x : TRUE)
Covers(r, p) == \E i \in DOMAIN r.zone : LIntersects(r.zone[i], R(p.lane, p.s, p.s), p.tol)
(* Any of the covering rules may be the one whose state is reported; one whose state was never set gives no state. *)
AtPos(kind, p, ty) ==
  IF p.tol < 0 THEN {Throws}
  ELSE LET c == {r \in rules : r.kind = kind /\ r.type = ty /\ Covers(r, p)}
       IN IF c = {} THEN {None}
          ELSE UNION {IF StateOf(kind, r.id) = None THEN {None, Throws} ELSE {StateOf(kind, r.id)} : r \in c}

RowType == "Right-Of-Way Rule Type"
(* The yield and bulb groups of the current state of a right-of-way rule. *)
Group(id, what, k) ==
  LET r == {x \in rules : x.kind = "dv" /\ x.id = id}
      s == StateOf("dv", id)
  IN IF r = {} THEN {"no such rule"}
     ELSE IF (CHOOSE x \in r : TRUE).type # RowType \/ s = None THEN {"throws"}
     ELSE LET g == {x \in (CHOOSE v \in s.state : TRUE).rel : x.what = what /\ x.k = k} IN
          IF g = {} THEN {"throws"} ELSE RelIds(CHOOSE x \in g : TRUE)

Kinds == {"dv", "rv"}
Obs == [byid |-> {[kind |-> k, id |-> i, r |-> StateOf(k, i)] : k \in Kinds, i \in Ids},
        bypos |-> {[kind |-> k, p |-> p.p, type |-> t, r |-> [any_of |-> AtPos(k, p, t)]] : k \in Kinds, p \in Points, t \in Types},
        rw |-> {[id |-> i, s |-> {x.state : x \in {y \in rw : y.id = i}}] : i \in RwIds},
        yield |-> {[id |-> i, g |-> Group(i, "rules", "Yield Group")] : i \in Ids},
        bulbs |-> {[id |-> i, g |-> Group(i, "ids", "Bulb Group")] : i \in Ids}]

(* The default range provider: the first state of every range value rule. *)
Defaults ==
  /\ act' = [op |-> "Defaults", res |-> {[id |-> r.id, r |-> [st |-> "ok", state |-> {r.states[1]}, next |-> {}, dur |-> 0]]
                                          : r \in {x \in rules : x.kind = "rv"}}]
  /\ UNCHANGED <<rules, st, rw>>
----------------------------------------------------------------------------
OneState == \A s, t \in st : s.kind = t.kind /\ s.id = t.id => s = t
(* Whatever was accepted was legal when it was accepted; while the rule stays, the state is one of the rule's. *)
SetLegal == [][st' # st => \E s \in st' : /\ Legal(s.kind, s.id, s.state) /\ \A n \in s.next : Legal(s.kind, s.id, n)
                                          /\ st' = {x \in st : x.kind # s.kind \/ x.id # s.id} \cup {s}]_vars
=============================================================================
