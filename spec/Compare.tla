------------------------------- MODULE Compare -------------------------------
(* What two objects must share for the comparison helpers of maliput to call them equal, and how near two positions
   must be to be called close.  A helper reports a difference exactly when there is one; the verdict here is "same",
   "differ", or "either" where two objects only list the members of an unordered collection in another order.

   Values come as data: a list is a sequence of [i |-> place, v |-> element], a map one of [k |-> key, v |-> element],
   something optional is a list of at most one.  C<Kind>(v, loose) is what a value of that kind consists of; loose forgets
   the order of unordered collections. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE act
Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a > b THEN a ELSE b
Id(x, lo) == x
Lst(x, F(_, _), lo) ==
  LET vs == TLCEval([n \in DOMAIN x |-> F(x[n].v, lo)])
  IN IF lo THEN {<<v, Cardinality({n \in DOMAIN x : vs[n] = v})>> : v \in {vs[n] : n \in DOMAIN x}}
     ELSE {<<x[n].i, vs[n]>> : n \in DOMAIN x}
\* A list whose order always matters.
Row(x, F(_, _), lo) == {<<x[n].i, F(x[n].v, lo)>> : n \in DOMAIN x}
Mp(x, F(_, _), lo) == {<<x[n].k, F(x[n].v, lo)>> : n \in DOMAIN x}
Opt(x, F(_, _), lo) == {F(x[n].v, lo) : n \in DOMAIN x}

CIds(x, lo) == Lst(x, Id, lo)
CRange(r, lo) == <<r.lane, r.s0, r.s1>>
CSRange(r, lo) == <<r.s0, r.s1>>
CZone(z, lo) == Row(z, CRange, lo)
CRelated(x, lo) == Lst(x, Id, TRUE)                \* the order of what a state relates to means nothing
CDv(v, lo) == <<v.sev, v.text, Mp(v.rr, CRelated, lo), Mp(v.ru, CRelated, lo)>>
CRv(v, lo) == <<CDv(v, lo), v.min, v.max>>
CDvs(x, lo) == Lst(x, CDv, lo)
CRvs(x, lo) == Lst(x, CRv, lo)
CDvRule(r, lo) == <<r.id, r.type, CZone(r.zone, lo), CDvs(r.values, lo)>>
CRvRule(r, lo) == <<r.id, r.type, CZone(r.zone, lo), CRvs(r.values, lo)>>
CDvMap(m, lo) == Mp(m, CDv, lo)
CStates(m, lo) == Mp(m, Id, lo)                    \* right-of-way rule -> state, or bulb -> state
COptBulbs(o, lo) == Opt(o, CStates, lo)
CPhase(p, lo) == <<p.id, CStates(p.rules, lo), CDvMap(p.values, lo), COptBulbs(p.bulbs, lo)>>
COptNum(o, lo) == Opt(o, Id, lo)
CNext(n, lo) == <<n.id, COptNum(n.dur, lo)>>
CNexts(x, lo) == Lst(x, CNext, lo)
CDuState(s, lo) == <<s.id, s.type, s.sev>>
CDuV(s, lo) == <<s.type, s.sev>>
CDuMap(m, lo) == Mp(m, CDuV, lo)
CDuRule(r, lo) == <<r.id, CRange(r.zone, lo), CDuMap(r.states, lo)>>
CRwV(s, lo) == <<s.type, CIds(s.yield, lo)>>
CRwState(s, lo) == <<s.id, CRwV(s.v, lo)>>
CRwMap(m, lo) == Mp(m, CRwV, lo)
CGroups(m, lo) == Mp(m, CIds, lo)
CRwRule(r, lo) == <<r.id, CZone(r.zone, lo), r.ztype, CRwMap(r.states, lo), CGroups(r.groups, lo)>>
CRwResult(r, lo) == <<r.state, Opt(r.next, CNext, lo)>>
CSlRule(r, lo) == <<r.id, CRange(r.zone, lo), r.sev, r.min, r.max>>
CBulb(b, lo) == <<b.id, b.pos, b.rot, b.color, b.type, COptNum(b.arrow, lo), CIds(b.states, lo), b.bb>>
CBulbs(x, lo) == Lst(x, CBulb, lo)
CGroup(g, lo) == <<g.id, g.pos, g.rot, CBulbs(g.bulbs, lo)>>
CLight(t, lo) == <<t.id, t.pos, t.rot, Lst(t.groups, CGroup, lo)>>

Canon(kind, v, lo) ==
  CASE kind \in {"bool", "double", "size", "id", "srange-end", "junction", "segment", "lane", "branch", "inertial", "rotation",
                 "which", "du-type", "du-sev", "rw-type", "rw-zone", "sl-sev", "color", "bulb-type", "bulb-state", "box"} -> v
    [] kind = "srange" -> CSRange(v, lo)
    [] kind = "lane-range" -> CRange(v, lo)
    [] kind \in {"lane-ranges", "route"} -> CZone(v, lo)
    [] kind \in {"lane-end", "lane-end-equal"} -> <<v.lane, v.end>>
    [] kind = "dv" -> CDv(v, lo)
    [] kind = "dvs" -> CDvs(v, lo)
    [] kind = "dv-map" -> CDvMap(v, lo)
    [] kind = "dv-rule" -> CDvRule(v, lo)
    [] kind = "rv" -> CRv(v, lo)
    [] kind = "rvs" -> CRvs(v, lo)
    [] kind = "rv-rule" -> CRvRule(v, lo)
    [] kind = "rule-states" -> CStates(v, lo)
    [] kind = "phase" -> CPhase(v, lo)
    [] kind = "next" -> CNext(v, lo)
    [] kind = "nexts" -> CNexts(v, lo)
    [] kind = "du-state" -> CDuState(v, lo)
    [] kind = "du-map" -> CDuMap(v, lo)
    [] kind = "du-rule" -> CDuRule(v, lo)
    [] kind = "rw-ids" -> CIds(v, lo)
    [] kind = "rw-state" -> CRwState(v, lo)
    [] kind = "rw-map" -> CRwMap(v, lo)
    [] kind = "rw-rule" -> CRwRule(v, lo)
    [] kind = "rw-result" -> CRwResult(v, lo)
    [] kind = "sl-rule" -> CSlRule(v, lo)
    [] kind = "groups" -> CGroups(v, lo)
    [] kind = "bulbs" -> COptBulbs(v, lo)
    [] kind = "opt-double" -> COptNum(v, lo)
    [] kind = "bulb" -> CBulb(v, lo)
    [] kind = "bulb-list" -> CBulbs(v, lo)
    [] kind = "group" -> CGroup(v, lo)
    [] kind = "light" -> CLight(v, lo)
Verdict(kind, a, b) == IF Canon(kind, a, FALSE) = Canon(kind, b, FALSE) THEN "same"
                       ELSE IF Canon(kind, a, TRUE) = Canon(kind, b, TRUE) THEN "either" ELSE "differ"

\* Closeness: every coordinate within the tolerance, and what is not a coordinate the same.
Near(a, b, tol) == \A n \in DOMAIN a : Abs(a[n] - b[n]) <= tol
CloseVerdict(kind, a, b, tol) ==
  LET near == Near(a.x, b.x, tol)
  IN IF kind = "road" THEN IF a.lane = 0 /\ b.lane = 0 THEN "either" ELSE IF a.lane = b.lane /\ near THEN "same" ELSE "differ"
     ELSE IF kind = "phase-position" THEN IF a.index = b.index /\ near THEN "same" ELSE "differ"
     ELSE IF kind = "route-position" THEN IF a.index = b.index /\ a.phase = b.phase /\ near THEN "same" ELSE "differ"
     ELSE IF near THEN "same" ELSE "differ"

\* Arrays of numbers, in quarters, and the tolerance in sixteenths: absolute, or relative to the larger number (at least 1).
\* Infinities and NaN agree with themselves alone.
EntryAgrees(p, q, tol, relative) ==
  IF p.c # "num" \/ q.c # "num" THEN p.c = q.c
  ELSE IF relative THEN 16 * Abs(p.v - q.v) <= tol * Max2(4, Max2(Abs(p.v), Abs(q.v)))
  ELSE 4 * Abs(p.v - q.v) <= tol
ArrayVerdict(a, b, tol, relative) == IF \A n \in DOMAIN a : EntryAgrees(a[n], b[n], tol, relative) THEN "same" ELSE "differ"

\* The collector counts, and fails exactly when something failed.
Collected(fails) == [count |-> Len(fails), failed |-> Cardinality({n \in DOMAIN fails : fails[n]}),
                     result |-> IF \E n \in DOMAIN fails : fails[n] THEN "differ" ELSE "same"]
\* An id index is right when it gives back every part of the geometry.
IndexVerdict(faults) == IF faults = {} THEN "same" ELSE "differ"

\* Identifiers and ranges as keys: equal exactly when alike, and strictly ordered - ranges by severity, description, minimum and
\* maximum, the others in any order that is total.
Text(t) == IF t = "x" THEN 1 ELSE 2
KeyOf(kind, v) == IF kind = "range" THEN <<v.sev, Text(v.text), v.min, v.max>> ELSE v
RECURSIVE LexFrom(_, _, _)
LexFrom(p, q, n) == n <= Len(p) /\ (p[n] < q[n] \/ (p[n] = q[n] /\ LexFrom(p, q, n + 1)))
Likes(kind, v, w) == IF kind = "range" THEN CRv(v, FALSE) = CRv(w, FALSE) ELSE v = w
Rankings(S) == {f \in [S -> 0..(Cardinality(S) - 1)] : \A x, y \in S : x # y => f[x] # f[y]}
Belows(kind, vs) ==
  LET ks == [n \in DOMAIN vs |-> KeyOf(kind, vs[n])]
      S == {ks[n] : n \in DOMAIN vs}
      below(less(_, _)) == {[k |-> n, below |-> Cardinality({m \in DOMAIN vs : less(ks[m], ks[n])})] : n \in DOMAIN vs}
  IN IF kind = "range" THEN {below(LAMBDA x, y : LexFrom(x, y, 1))}
     ELSE {below(LAMBDA x, y : f[x] < f[y]) : f \in Rankings(S)}
Keys(kind, vs) ==
  [below |-> [any_of |-> Belows(kind, vs)],
   pairs |-> {[a |-> n, b |-> m, eq |-> IF Likes(kind, vs[n], vs[m]) THEN "yes" ELSE "no",
               ne |-> IF Likes(kind, vs[n], vs[m]) THEN "no" ELSE "yes"] : n \in DOMAIN vs, m \in DOMAIN vs},
   ordered |-> Cardinality({KeyOf(kind, vs[n]) : n \in DOMAIN vs}),
   hashed |-> IF kind \in {"range", "end"} THEN 0 ELSE Cardinality({vs[n] : n \in DOMAIN vs})]

Say(v) == IF v = "either" THEN [any_of |-> <<"same", "differ">>] ELSE [any_of |-> <<v>>]
DoEqual(kind, a, b) == act' = [op |-> "Equal", kind |-> kind, res |-> [ab |-> Say(Verdict(kind, a, b)), ba |-> Say(Verdict(kind, b, a))]]
DoClose(kind, a, b, tol) ==
  act' = [op |-> "Close", kind |-> kind, res |-> [ab |-> Say(CloseVerdict(kind, a, b, tol)), ba |-> Say(CloseVerdict(kind, b, a, tol))]]
DoArray(a, b, tol, relative) ==
  act' = [op |-> "Array", res |-> [ab |-> Say(ArrayVerdict(a, b, tol, relative)), ba |-> Say(ArrayVerdict(b, a, tol, relative))]]
DoCollect(fails) == act' = [op |-> "Collect", res |-> Collected(fails)]
DoKeys(kind, vs) == act' = [op |-> "Keys", kind |-> kind, res |-> Keys(kind, vs)]
DoIndex(faults) == act' = [op |-> "Index", res |-> Say(IndexVerdict(faults))]
=============================================================================
