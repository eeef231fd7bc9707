------------------------------- MODULE ValueTypes -------------------------------
(* C29: the value types of the API -- bounds, positions, identifiers, range validators and rules -- hold what they were
   given and nothing illegal: what is not legal is refused, and a refusal leaves the object as it was.

   One object of each type is followed through a history of constructions, assignments and modifications. The numbers are
   whole; those of the validator count sixteenths, which doubles represent exactly. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [none |-> TRUE]
Seen(x) == [is |-> x]
Dup(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j]

VARIABLES
  bnd,    \* [r, h |-> <<min, max>>]: an RBounds and an HBounds
  pos,    \* [p, q, l |-> <<x, y, z>>]: two InertialPositions and a LanePosition
  ids,    \* the strings whose identifiers are in the containers
  ends,   \* the lane ends <<lane, end>> in the ordered container
  val,    \* the validator, [min, max, tol, eps] in sixteenths
  rules,  \* [sl, du, rw, dv, rv |-> Seen(content) or None]
  act
vars == <<bnd, pos, ids, ends, val, rules, act>>

Init == /\ bnd = [r |-> <<0, 0>>, h |-> <<0, 0>>] /\ pos = [p |-> <<0, 0, 0>>, q |-> <<0, 0, 0>>, l |-> <<0, 0, 0>>]
        /\ ids = {} /\ ends = {} /\ val = None
        /\ rules = [k \in {"sl", "du", "rw", "dv", "rv"} |-> None] /\ act = [op |-> "Init", res |-> "ok"]

Res(ok) == IF ok THEN "ok" ELSE "throws"

-------------------------------------------------------------------------------
(* Bounds straddle zero. *)
Straddles(b) == b[1] <= 0 /\ b[2] >= 0
Bound(w, how, a, b) ==
  LET n == IF how = "make" THEN <<a, b>> ELSE IF how = "min" THEN <<a, bnd[w][2]>> ELSE <<bnd[w][1], b>>
  IN /\ bnd' = IF Straddles(n) THEN [bnd EXCEPT ![w] = n] ELSE bnd
     /\ act' = [op |-> "Bound", w |-> w, how |-> how, a |-> a, b |-> b, res |-> Res(Straddles(n))]
     /\ UNCHANGED <<pos, ids, ends, val, rules>>

-------------------------------------------------------------------------------
(* Positions. *)
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Times(n, a) == <<n * a[1], n * a[2], n * a[3]>>
Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Small(a) == \A i \in 1..3 : a[i] \in -5000..5000
Place(w, how, x, y, z) ==
  LET n == IF how = "x" THEN <<x, pos[w][2], pos[w][3]>>
           ELSE IF how = "y" THEN <<pos[w][1], y, pos[w][3]>>
           ELSE IF how = "z" THEN <<pos[w][1], pos[w][2], z>>
           ELSE <<x, y, z>>                                     \* "make", "from" (a vector), "set" (a vector)
  IN /\ pos' = [pos EXCEPT ![w] = n]
     /\ act' = [op |-> "Place", w |-> w, how |-> how, x |-> x, y |-> y, z |-> z, res |-> "ok"]
     /\ UNCHANGED <<bnd, ids, ends, val, rules>>
Combine(w, how, n) ==
  LET r == IF how = "plus" THEN Plus(pos.p, pos.q) ELSE IF how = "minus" THEN Plus(pos.p, Times(-1, pos.q))
           ELSE Times(n, pos.p)                                 \* "left": n * p, "right": p * n
  IN /\ Small(r)
     /\ w \in {"p", "q"} /\ pos' = [pos EXCEPT ![w] = r]
     /\ act' = [op |-> "Combine", w |-> w, how |-> how, n |-> n, res |-> "ok"]
     /\ UNCHANGED <<bnd, ids, ends, val, rules>>

-------------------------------------------------------------------------------
(* Identifiers are their strings, which are not empty. *)
Identify(how, s) ==
  /\ ids' = IF s = "" THEN ids ELSE IF how = "insert" THEN ids \union {s} ELSE IF how = "erase" THEN ids \ {s} ELSE ids
  \* "equal": the identifiers of the containers which are the one made of the string
  /\ act' = [op |-> "Identify", how |-> how, s |-> s,
             res |-> IF s = "" THEN "throws" ELSE IF how = "equal" THEN [n |-> Cardinality(ids \intersect {s})] ELSE "ok"]
  /\ UNCHANGED <<bnd, pos, ends, val, rules>>
EndOp(how, l, e) ==
  /\ ends' = IF how = "insert" THEN ends \union {<<l, e>>} ELSE ends \ {<<l, e>>}
  /\ act' = [op |-> "EndOp", how |-> how, l |-> l, e |-> e, res |-> "ok"]
  /\ UNCHANGED <<bnd, pos, ids, val, rules>>

-------------------------------------------------------------------------------
(* Range validators. *)
Fits(min, max, tol, eps) == tol > 0 /\ eps >= 0 /\ eps <= tol /\ min + eps <= max
\* (a and b are whole, t and e sixteenths; what the documentation leaves open -- whether the epsilon that has to fit is
\* the one given or the one worked out, and a margin beyond the middle of the range -- is not asked)
Eps(mode, a, b, e) == IF mode = "abs" THEN e ELSE (b - a) * e
Clear(mode, a, b, t, e) ==
  /\ Fits(16 * a, 16 * b, t, e) = Fits(16 * a, 16 * b, t, Eps(mode, a, b, e))
  /\ Fits(16 * a, 16 * b, t, e) => 2 * Eps(mode, a, b, e) <= 16 * (b - a)
Validator(mode, a, b, t, e) ==
  /\ Clear(mode, a, b, t, e)
  /\ LET ok == Fits(16 * a, 16 * b, t, e)
     IN /\ val' = IF ok THEN Seen([min |-> 16 * a, max |-> 16 * b, tol |-> t, eps |-> Eps(mode, a, b, e)]) ELSE val
        /\ act' = [op |-> "Validator", mode |-> mode, a |-> a, b |-> b, t |-> t, e |-> e, res |-> Res(ok)]
  /\ UNCHANGED <<bnd, pos, ids, ends, rules>>
Kept(v, s) == LET low == v.min + v.eps
                  high == v.max - v.eps
              IN IF s < low THEN low ELSE IF s > high THEN high ELSE s
Validate(s) ==
  /\ val # None
  /\ LET v == val.is
     IN act' = [op |-> "Validate", s |-> s,
                res |-> IF s < v.min - v.tol \/ s > v.max + v.tol THEN "throws" ELSE [n |-> Kept(v, s)]]
  /\ UNCHANGED <<bnd, pos, ids, ends, val, rules>>

-------------------------------------------------------------------------------
(* Rules. A refused rule leaves the one there is. *)
Keep(k, c, legal) ==
  /\ rules' = IF legal THEN [rules EXCEPT ![k] = Seen(c)] ELSE rules
  /\ act' = [op |-> "Rule", k |-> k, c |-> c, res |-> Res(legal)]
  /\ UNCHANGED <<bnd, pos, ids, ends, val>>

\* c: [id, lane, sev, min, max]
SpeedLimit(c) == Keep("sl", c, c.min >= 0 /\ c.max >= 0 /\ c.min <= c.max)
UniqueStates(c) == ~Dup([i \in DOMAIN c.states |-> c.states[i].id])
\* c: [id, lane, states (a sequence of [id, type, sev])]. The documentation asks for exactly one state and also tells of
\* several: rules of several states are not asked for
DirectionUsage(c) == /\ Len(c.states) < 2 \/ ~UniqueStates(c)
                     /\ Keep("du", c, Len(c.states) = 1)
\* c: [id, lane, stop, states (a sequence of [id, type, yield]), groups (a sequence of [light, bulbs] of distinct lights)]
RightOfWay(c) == Keep("rw", c, c.states # <<>> /\ UniqueStates(c) /\ \A i \in DOMAIN c.groups : ~Dup(c.groups[i].bulbs))
\* c: [id, type, lane, states (a sequence of [sev, rules, uids, value] or [sev, rules, uids, min, max, desc])]
\* (rules and uids: sequences of [key, of] of distinct keys)
RelatedOk(m) == \A i \in DOMAIN m : m[i].key # "" /\ ~Dup(m[i].of)
StatesOk(ss) == ss # <<>> /\ ~Dup(ss) /\ \A i \in DOMAIN ss : ss[i].sev >= 0 /\ RelatedOk(ss[i].rules) /\ RelatedOk(ss[i].uids)
Discrete(c) == Keep("dv", c, StatesOk(c.states))
Ranges(c) == Keep("rv", c, StatesOk(c.states) /\ \A i \in DOMAIN c.states : c.states[i].min <= c.states[i].max)

Make(k, c) == IF k = "sl" THEN SpeedLimit(c) ELSE IF k = "du" THEN DirectionUsage(c) ELSE IF k = "rw" THEN RightOfWay(c)
              ELSE IF k = "dv" THEN Discrete(c) ELSE Ranges(c)

-------------------------------------------------------------------------------
(* What the objects tell of themselves. *)
Static(r) == IF r = None THEN "none"
             ELSE IF Len(r.is.states) = 1 THEN [static |-> TRUE, state |-> r.is.states[1].id]
             ELSE [static |-> FALSE, state |-> "throws"]
\* (sequences are told as sets of places and what is there)
Told(s) == {[i |-> i, v |-> s[i]] : i \in DOMAIN s}
Related(m) == {[key |-> m[i].key, of |-> Told(m[i].of)] : i \in DOMAIN m}
Content(k) ==
  IF rules[k] = None THEN "none"
  ELSE LET c == rules[k].is
       IN IF k = "sl" THEN c
          ELSE IF k = "du" THEN [c EXCEPT !.states = Told(@)]
          \* (the states of a right of way rule are found by their ids)
          ELSE IF k = "rw" THEN [c EXCEPT !.states = {[i |-> 0, v |-> [x EXCEPT !.yield = Told(@)]] : x \in {c.states[i] : i \in DOMAIN c.states}},
                                          !.groups = {[x EXCEPT !.bulbs = Told(@)] : x \in {c.groups[i] : i \in DOMAIN c.groups}}]
          ELSE [c EXCEPT !.states = Told([i \in DOMAIN c.states |-> [c.states[i] EXCEPT !.rules = Related(@), !.uids = Related(@)]])]
Obs ==
  [bnd |-> [r |-> [min |-> bnd.r[1], max |-> bnd.r[2]], h |-> [min |-> bnd.h[1], max |-> bnd.h[2]]],
   pos |-> [w \in {"p", "q", "l"} |-> [x |-> pos[w][1], y |-> pos[w][2], z |-> pos[w][3]]],
   same |-> pos.p = pos.q,
   d2 |-> Sq(Plus(pos.p, Times(-1, pos.q))),                    \* the square of the distance between them,
   n2 |-> Sq(pos.p),                                            \* and that of the length of one
   ids |-> ids,
   ends |-> {[l |-> x[1], e |-> x[2]] : x \in ends},
   du |-> Static(rules.du),
   rw |-> Static(rules.rw),
   rule |-> [k \in {"sl", "du", "rw", "dv", "rv"} |-> Content(k)]]

Legal ==
  /\ Straddles(bnd.r) /\ Straddles(bnd.h) /\ "" \notin ids
  /\ rules.sl # None => rules.sl.is.min \in 0..rules.sl.is.max
  /\ \A k \in {"du", "rw", "dv", "rv"} : rules[k] # None => rules[k].is.states # <<>> /\ ~Dup(rules[k].is.states)
  \* what a validator answers lies in its range, and is its own answer
  /\ (val # None /\ act.op = "Validator") =>
       \A s \in (val.is.min - val.is.tol)..(val.is.max + val.is.tol) :
         Kept(val.is, s) \in val.is.min..val.is.max /\ Kept(val.is, Kept(val.is, s)) = Kept(val.is, s)
=============================================================================
