------------------------------- MODULE Lights -------------------------------
(* Traffic lights, bulb groups and bulbs, assembled bottom up, and the book of traffic lights.                       *)
(* Implementation: api::rules::{Bulb, BulbGroup, TrafficLight, UniqueBulbId, UniqueBulbGroupId}, TrafficLightBook.    *)
(* Objects are named by handles h; an object that was given to a constructor that refuses it is gone.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS BulbIds, GroupIds, LightIds   \* ids offered to queries
VARIABLES bulbs,    \* set of [h, id, color, type, arrow, states, pos, bb, owner]   (arrow, bb 0: not given; owner "": none)
          groups,   \* set of [h, id, kids, pos, owner]                            (kids: sequence of handles)
          lights,   \* set of [h, id, kids, pos, inbook]
          act
vars == <<bulbs, groups, lights, act>>

Range(s) == {s[i] : i \in DOMAIN s}
Bulb(h) == CHOOSE b \in bulbs : b.h = h
Group(h) == CHOOSE g \in groups : g.h = h
Light(h) == CHOOSE t \in lights : t.h = h
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
AllStates == {"Off", "On", "Blinking"}

Init == bulbs = {} /\ groups = {} /\ lights = {} /\ act = [op |-> "new"]

MakeBulb(h, id, color, type, arrow, states, pos, bb) ==
  LET ok == (type = "Arrow") <=> (arrow # 0)
      st == IF states = {} THEN {"Off", "On"} ELSE states IN
  /\ h \notin {b.h : b \in bulbs}
  /\ bulbs' = IF ok THEN bulbs \cup {[h |-> h, id |-> id, color |-> color, type |-> type, arrow |-> arrow, states |-> st,
                                      pos |-> pos, bb |-> bb, owner |-> ""]} ELSE bulbs
  /\ act' = [op |-> "MakeBulb", h |-> h, id |-> id, color |-> color, type |-> type, arrow |-> arrow, states |-> states,
             pos |-> pos, bb |-> bb, res |-> IF ok THEN "ok" ELSE "throws"]
  /\ UNCHANGED <<groups, lights>>

(* kids: sequence of handles of loose bulbs, or "null" *)
EncKids(k) == {[i |-> i, h |-> k[i]] : i \in DOMAIN k}
Loose(objs, kids) == \A k \in Range(kids) \ {"null"} : \E o \in objs : o.h = k /\ o.owner = ""
NoRep(kids) == \A i, j \in DOMAIN kids : (i # j /\ kids[i] # "null") => kids[i] # kids[j]
MakeGroup(h, id, kids, pos) ==
  LET ok == /\ kids # <<>> /\ "null" \notin Range(kids)
            /\ Distinct([i \in DOMAIN kids |-> Bulb(kids[i]).id]) IN
  /\ h \notin {g.h : g \in groups} /\ Loose(bulbs, kids) /\ NoRep(kids)
  /\ groups' = IF ok THEN groups \cup {[h |-> h, id |-> id, kids |-> kids, pos |-> pos, owner |-> ""]} ELSE groups
  /\ bulbs' = IF ok THEN {IF b.h \in Range(kids) THEN [b EXCEPT !.owner = h] ELSE b : b \in bulbs}
              ELSE {b \in bulbs : b.h \notin Range(kids)}
  /\ act' = [op |-> "MakeGroup", h |-> h, id |-> id, kids |-> EncKids(kids), pos |-> pos, res |-> IF ok THEN "ok" ELSE "throws"]
  /\ UNCHANGED lights

DropGroups(hs) == /\ groups' = {g \in groups : g.h \notin hs}
                  /\ bulbs' = {b \in bulbs : b.owner \notin hs}
MakeLight(h, id, kids, pos) ==
  LET ok == "null" \notin Range(kids) /\ Distinct([i \in DOMAIN kids |-> Group(kids[i]).id]) IN
  /\ h \notin {t.h : t \in lights} /\ Loose(groups, kids) /\ NoRep(kids)
  /\ IF ok THEN /\ lights' = lights \cup {[h |-> h, id |-> id, kids |-> kids, pos |-> pos, inbook |-> FALSE]}
                /\ groups' = {IF g.h \in Range(kids) THEN [g EXCEPT !.owner = h] ELSE g : g \in groups}
                /\ UNCHANGED bulbs
     ELSE DropGroups(Range(kids)) /\ UNCHANGED lights
  /\ act' = [op |-> "MakeLight", h |-> h, id |-> id, kids |-> EncKids(kids), pos |-> pos, res |-> IF ok THEN "ok" ELSE "throws"]

AddLight(h) ==
  LET ok == \A t \in lights : t.inbook => t.id # Light(h).id IN
  /\ \E t \in lights : t.h = h /\ ~t.inbook
  /\ IF ok THEN /\ lights' = {IF t.h = h THEN [t EXCEPT !.inbook = TRUE] ELSE t : t \in lights}
                /\ UNCHANGED <<bulbs, groups>>
     ELSE /\ lights' = {t \in lights : t.h # h}
          /\ DropGroups(Range(Light(h).kids))
  /\ act' = [op |-> "AddLight", h |-> h, res |-> IF ok THEN "ok" ELSE "throws"]
AddNull == act' = [op |-> "AddNull", res |-> "throws"] /\ UNCHANGED <<bulbs, groups, lights>>

----------------------------------------------------------------------------
(* The unique id of a bulb or group is the chain of ids of its owners; before it has them there is none. *)
GroupUid(g) == IF g.owner = "" THEN <<"throws">> ELSE <<Light(g.owner).id, g.id>>
BulbUid(b) == IF b.owner = "" \/ Group(b.owner).owner = "" THEN <<"throws">>
              ELSE GroupUid(Group(b.owner)) \o <<b.id>>
EncUid(u) == IF u = <<"throws">> THEN "throws" ELSE IF Len(u) = 2 THEN u[1] \o "-" \o u[2] ELSE u[1] \o "-" \o u[2] \o "-" \o u[3]
Parts(u) == {[i |-> i, id |-> u[i]] : i \in DOMAIN u}
UBulbs == {b \in bulbs : BulbUid(b) # <<"throws">>}
UGroups == {g \in groups : g.owner # ""}
DefState(b) == IF "Off" \in b.states THEN "Off" ELSE IF "Blinking" \in b.states THEN "Blinking" ELSE "On"
(* Which of the kids carries an id: at most one. *)
ById(objs, kids, ids) == {[id |-> n, h |-> LET m == {k \in Range(kids) : \E o \in objs : o.h = k /\ o.id = n} IN
                                          IF m = {} THEN "none" ELSE CHOOSE k \in m : TRUE] : n \in ids}
Obs == [bulbs |-> {[h |-> b.h, id |-> b.id, color |-> b.color, type |-> b.type, arrow |-> b.arrow, states |-> b.states, pos |-> b.pos,
                    bb |-> b.bb, owner |-> b.owner, def |-> DefState(b), valid |-> b.states, uid |-> EncUid(BulbUid(b)),
                    parts |-> Parts(BulbUid(b))] : b \in bulbs},
        groups |-> {[h |-> g.h, id |-> g.id, pos |-> g.pos, kids |-> EncKids(g.kids), owner |-> g.owner, uid |-> EncUid(GroupUid(g)),
                     parts |-> Parts(GroupUid(g)), byid |-> ById(bulbs, g.kids, BulbIds)] : g \in groups},
        lights |-> {[h |-> t.h, id |-> t.id, pos |-> t.pos, kids |-> EncKids(t.kids), byid |-> ById(groups, t.kids, GroupIds)] : t \in lights},
        book |-> {t.h : t \in {u \in lights : u.inbook}},
        bookid |-> {[id |-> n, h |-> LET m == {t \in lights : t.inbook /\ t.id = n} IN IF m = {} THEN "none" ELSE (CHOOSE t \in m : TRUE).h] : n \in LightIds},
        \* unique ids tell bulbs (groups) apart in comparisons, ordered and hashed containers
        samebulb |-> {{b.h, c.h} : <<b, c>> \in {q \in UBulbs \X UBulbs : BulbUid(q[1]) = BulbUid(q[2]) /\ q[1].h # q[2].h}},
        samegroup |-> {{b.h, c.h} : <<b, c>> \in {q \in UGroups \X UGroups : GroupUid(q[1]) = GroupUid(q[2]) /\ q[1].h # q[2].h}},
        nbulbs |-> Cardinality({BulbUid(b) : b \in UBulbs}), ngroups |-> Cardinality({GroupUid(g) : g \in UGroups})]

----------------------------------------------------------------------------
BookIds == \A t, u \in lights : t.inbook /\ u.inbook /\ t.id = u.id => t = u
(* Inside the book, unique ids identify bulbs and groups. *)
InBook(b) == b \in UBulbs /\ Light(Group(b.owner).owner).inbook
UniqueInBook == \A b, c \in bulbs : InBook(b) /\ InBook(c) /\ BulbUid(b) = BulbUid(c) => b = c
Owned == /\ \A b \in bulbs : b.owner # "" => \E g \in groups : g.h = b.owner /\ b.h \in Range(g.kids)
         /\ \A g \in groups : \A k \in Range(g.kids) : Bulb(k).owner = g.h
         /\ \A t \in lights : \A k \in Range(t.kids) : Group(k).owner = t.h
=============================================================================
