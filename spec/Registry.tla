------------------------------ MODULE Registry ------------------------------
(* The registry of rule types, and the rules built from it.                                                         *)
(* Implementation: api::rules::RuleRegistry, DiscreteValueRule, RangeValueRule, maliput/base/rule_registry.cc.       *)
EXTENDS Ranges, Values, TLC

CONSTANTS Types
VARIABLES reg,    \* registered types: [type, kind, values]
          act
vars == <<reg, act>>

Registered(ty) == \E r \in reg : r.type = ty
Of(ty, kind) == CHOOSE r \in reg : r.type = ty /\ r.kind = kind

Init == reg = {} /\ act = [op |-> "new"]

Register(kind, ty, vs) ==
  LET ok == ~Registered(ty) /\ Len(vs) > 0 /\ Distinct(vs)
  IN /\ reg' = IF ok THEN reg \cup {[type |-> ty, kind |-> kind, values |-> vs]} ELSE reg
     /\ act' = [op |-> "Register", kind |-> kind, type |-> ty, values |-> EncValues(vs), res |-> IF ok THEN "ok" ELSE "throws"]

(* A rule of a kind whose type and values are known to the registry. *)
CanBuild(kind, ty, vs) ==
  /\ \E r \in reg : /\ r.type = ty /\ r.kind = kind
                    /\ \A i \in DOMAIN vs : \E j \in DOMAIN r.values : Matches(vs[i], r.values[j])
  /\ StatesOk(vs)
Rule(kind, id, ty, z, vs) == [kind |-> kind, id |-> id, type |-> ty, zone |-> EncSeq(z), states |-> EncValues(vs)]
Build(kind, id, ty, z, vs) ==
  /\ UNCHANGED reg
  /\ act' = [op |-> "Build", kind |-> kind, id |-> id, type |-> ty, zone |-> EncSeq(z), values |-> EncValues(vs),
             res |-> [any_of |-> IF CanBuild(kind, ty, vs) THEN {Rule(kind, id, ty, z, vs)} ELSE {"throws"}]]
(* Constructing a rule without a registry. *)
Make(kind, id, ty, z, vs) ==
  /\ UNCHANGED reg
  /\ act' = [op |-> "Make", kind |-> kind, id |-> id, type |-> ty, zone |-> EncSeq(z), values |-> EncValues(vs),
             res |-> [any_of |-> IF StatesOk(vs) THEN {Rule(kind, id, ty, z, vs)} ELSE {"throws"}]]

(* Rule types that maliput itself defines. *)
V(s, t) == [sev |-> s, text |-> t, min |-> 0, max |-> 0, rel |-> {}]
Strict(ts) == [i \in DOMAIN ts |-> V(0, ts[i])]
Builtin(name) ==
  CASE name = "Direction-Usage Rule Type" -> Strict(<<"WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Parking", "Undefined">>)
    [] name = "Right-Of-Way Rule Type" -> <<V(0, "Go"), V(0, "Stop"), V(0, "StopAndGo"), V(1, "Go"), V(1, "Stop"), V(1, "StopAndGo")>>
    [] name = "Vehicle-Stop-In-Zone-Behavior Rule Type" -> Strict(<<"DoNotStop", "5MinuteParking", "30MinuteParking", "45MinuteParking",
                                                    "1HourParking", "2HourParking", "4HourParking", "UnconstrainedParking">>)
RegisterBuiltin(name) ==
  /\ reg' = IF Registered(name) THEN reg ELSE reg \cup {[type |-> name, kind |-> "dv", values |-> Builtin(name)]}
  /\ act' = [op |-> "RegisterBuiltin", name |-> name, res |-> IF Registered(name) THEN "throws" ELSE "ok"]

EncType(r) == [type |-> r.type, kind |-> r.kind, values |-> EncValues(r.values)]
Obs == [types |-> {EncType(r) : r \in reg},
        get |-> {[type |-> t, is |-> {EncType(r) : r \in {x \in reg : x.type = t}}] : t \in Types}]

----------------------------------------------------------------------------
OneKind == \A r, s \in reg : r.type = s.type => r = s
AllDistinct == \A r \in reg : Len(r.values) > 0 /\ Distinct(r.values)
Grows == [][reg \subseteq reg' /\ (act'.op = "Register" => (act'.res = "throws" <=> reg' = reg))]_vars
=============================================================================
