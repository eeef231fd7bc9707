------------------------------- MODULE Values -------------------------------
(* States of rules.  A value is [sev, text, min, max, rel]: severity, value or description, bounds (0, 0 for discrete *)
(* values), and related rules and unique ids, rel = set of [what, k, ids], ids a set of [i, id].                       *)
EXTENDS Integers, Sequences, FiniteSets

RelIds(r) == {x.id : x \in r.ids}
(* The order in which related ids are listed is meaningless. *)
RelSet(v) == {[what |-> r.what, k |-> r.k, ids |-> RelIds(r)] : r \in v.rel}
SameValue(v, w) == v.sev = w.sev /\ v.text = w.text /\ v.min = w.min /\ v.max = w.max /\ RelSet(v) = RelSet(w)
(* Registered and requested values are matched without their related ids. *)
Matches(v, w) == v.sev = w.sev /\ v.text = w.text /\ v.min = w.min /\ v.max = w.max

ValueOk(v) == /\ v.sev >= 0
              /\ v.min <= v.max
              /\ \A r \in v.rel : r.k # "" /\ \A x, y \in r.ids : x.id = y.id => x = y
Distinct(vs) == \A i, j \in DOMAIN vs : SameValue(vs[i], vs[j]) => i = j
(* vs are the possible states of one rule. *)
StatesOk(vs) == Len(vs) > 0 /\ Distinct(vs) /\ \A i \in DOMAIN vs : ValueOk(vs[i])

EncValues(vs) == {[i |-> i, v |-> vs[i]] : i \in DOMAIN vs}
DecValues(e) == [k \in 1..Cardinality(e) |-> (CHOOSE x \in e : x.i = k).v]
=============================================================================
