------------------------------ MODULE Rulebook ------------------------------
(* The rules of the road known to a road rulebook, and every way of asking for them.                       *)
(* Implementation: maliput::ManualRulebook (src/maliput/base/manual_rulebook.cc), api::rules::RoadRulebook, *)
(* FilterRules (src/maliput/base/rule_filter.cc).                                                           *)
EXTENDS Ranges, TLC

CONSTANTS Ids,        \* rule ids offered to queries
          Types,      \* type ids of discrete and range value rules
          Queries     \* sequence of [ranges, tol] asked after every step

VARIABLES rules,      \* the rules present: [kind, id, type, zone], zone a sequence of ranges
          act         \* last call and its result (observation only)
vars == <<rules, act>>

Kinds == {"rw", "sl", "du", "dv", "rv"}
(* Discrete and range value rules share one id space; every other kind has its own. *)
Space(k) == IF k \in {"dv", "rv"} THEN "rule" ELSE k
Single(k) == k \in {"sl", "du"}     \* kinds whose zone is exactly one range

Same(r, k, id) == Space(r.kind) = Space(k) /\ r.id = id
Present(k, id) == \E r \in rules : Same(r, k, id)
Touches(r, ranges, tol) == \E i \in DOMAIN r.zone : \E j \in DOMAIN ranges : LIntersects(r.zone[i], ranges[j], tol)
Find(ranges, tol) == {r \in rules : Touches(r, ranges, tol)}
Name(r) == [kind |-> r.kind, id |-> r.id]
Enc(r) == [kind |-> r.kind, id |-> r.id, type |-> r.type, zone |-> EncSeq(r.zone)]

Init == rules = {} /\ act = [op |-> "new"]

Add(k, id, ty, z) ==
  /\ Single(k) => Len(z) = 1
  /\ rules' = IF Present(k, id) THEN rules ELSE rules \cup {[kind |-> k, id |-> id, type |-> ty, zone |-> z]}
  /\ act' = [op |-> "Add", kind |-> k, id |-> id, type |-> ty, zone |-> EncSeq(z),
             res |-> IF Present(k, id) THEN "throws" ELSE "ok"]

Remove(k, id) ==
  /\ rules' = {r \in rules : ~Same(r, k, id)}
  /\ act' = [op |-> "Remove", kind |-> k, id |-> id, res |-> IF Present(k, id) THEN "ok" ELSE "throws"]

RemoveAll == rules' = {} /\ act' = [op |-> "RemoveAll", res |-> "ok"]

FindRules(q, t) ==
  /\ UNCHANGED rules
  /\ IF t < 0 THEN act' = [op |-> "Find", ranges |-> EncSeq(q), tol |-> t, res |-> "throws"]
              ELSE act' = [op |-> "Find", ranges |-> EncSeq(q), tol |-> t, res |-> {Name(r) : r \in Find(q, t)}]

(* Everything a client can see. *)
Obs == [all |-> {Enc(r) : r \in rules},
        get |-> {[kind |-> k, id |-> id, rule |-> {Enc(r) : r \in {x \in rules : x.kind = k /\ x.id = id}}]
                   : k \in Kinds, id \in Ids},
        type |-> {[type |-> t, rules |-> {Name(r) : r \in {x \in rules : x.kind \in {"dv", "rv"} => x.type = t}}]
                   : t \in Types},
        find |-> {[q |-> i, rules |-> {Name(r) : r \in Find(Queries[i].ranges, Queries[i].tol)}]
                   : i \in DOMAIN Queries}]

----------------------------------------------------------------------------
(* Properties of the specification itself. *)
UniqueIds == \A r, s \in rules : Same(r, s.kind, s.id) => r = s
(* A query never reports a rule that is not there, is monotone in ranges and tolerance, and the whole-lane query *)
(* reports exactly the rules with a range on that lane.                                                          *)
FindSound == \A i \in DOMAIN Queries :
               /\ Find(Queries[i].ranges, Queries[i].tol) \subseteq rules
               /\ Find(Queries[i].ranges, Queries[i].tol) \subseteq Find(Queries[i].ranges, Queries[i].tol + 1)
(* A rejected call changes nothing; an accepted add adds one rule, an accepted remove takes exactly one away. *)
Atomic == [][ /\ act'.res = "throws" => rules' = rules
              /\ act'.op = "Add" /\ act'.res = "ok" => Cardinality(rules') = Cardinality(rules) + 1 /\ rules \subseteq rules'
              /\ act'.op = "Remove" /\ act'.res = "ok" => Cardinality(rules') = Cardinality(rules) - 1 /\ rules' \subseteq rules
            ]_vars
=============================================================================
