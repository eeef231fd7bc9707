------------------------------ MODULE LaneSeqs ------------------------------
(* routing::FindLaneSequences, DetermineEdgeS and DeriveLaneSRoutes over the connectivity of the lanes.             *)
EXTENDS Topo, TLC

VARIABLES at,      \* placement of the lane ends
          len,     \* lane -> length
          act
vars == <<at, len, act>>
Lanes == DOMAIN len

LenOf(p) == LET RECURSIVE S(_) S(k) == IF k >= Len(p) THEN 0 ELSE len[p[k]] + S(k + 1) IN S(2)   \* of the lanes strictly between the ends
Found(a, b, max) == {p \in LanePaths(at, a, b) : a = b \/ LenOf(p) <= max}
Plain(p) == \E w \in Ways(at, p) : ~TurnsBack(w)      \* can be travelled without turning back
Turning(p) == \E w \in Ways(at, p) : TurnsBack(w)
(* With U-turns excluded a sequence that only turns back is dropped and one that cannot is kept.  Where two lanes meet at *)
(* both their ends the sequence of lanes does not say which way it goes.                                                  *)
FindSeqs(a, b, max, nou) ==
  LET P == Found(a, b, max) IN
  /\ act' = [op |-> "Find", a |-> a, b |-> b, max |-> max, nou |-> nou,
             res |-> IF nou THEN [between |-> <<{EncPath(p) : p \in {q \in P : ~Turning(q)}},
                                                {EncPath(p) : p \in {q \in P : Turning(q) /\ Plain(q)}}>>]
                     ELSE [between |-> <<{EncPath(p) : p \in P}, {}>>]]
  /\ UNCHANGED <<at, len>>

SAt(n, e) == IF e = "start" THEN 0 ELSE len[n]
Edge(a, b) ==
  LET ends == {c.out : c \in Conn(at, a, b)} IN
  /\ act' = [op |-> "Edge", a |-> a, b |-> b, res |-> IF ends = {} THEN "none" ELSE [any_of |-> {SAt(a, e) : e \in ends}]]
  /\ UNCHANGED <<at, len>>

(* The lane ranges of a route along path p travelled as w, from position s of the first lane to position t of the last. *)
RouteOf(p, w, s, t) ==
  {[i |-> k, lane |-> p[k], s0 |-> IF k = 1 THEN s ELSE SAt(p[k], w[k - 1].in),
    s1 |-> IF k = Len(p) THEN t ELSE SAt(p[k], w[k].out)] : k \in DOMAIN p}
Routes(p, s, t) == {RouteOf(p, w, s, t) : w \in Ways(at, p)}
Derive(a, s, b, t, max) ==
  /\ act' = [op |-> "Derive", a |-> a, s |-> s, b |-> b, t |-> t, max |-> max,
             res |-> IF "null" \in {a, b} THEN [any_of |-> {"throws"}] ELSE [between |-> <<{[any_of |-> Routes(p, s, t)] : p \in Found(a, b, max)}, {}>>]]
  /\ UNCHANGED <<at, len>>
----------------------------------------------------------------------------
Rev(p) == [i \in DOMAIN p |-> p[Len(p) + 1 - i]]
(* Paths are reversible, start and end where asked, join connected distinct lanes, and every path can be travelled. *)
PathsOk(max) == \A a, b \in Lanes :
  /\ {Rev(p) : p \in Found(a, b, max)} = Found(b, a, max)
  /\ \A p \in Found(a, b, max) :
       /\ p[1] = a /\ p[Len(p)] = b /\ Cardinality(Elems(p)) = Len(p)
       /\ Ways(at, p) # {} /\ (Plain(p) \/ Turning(p)) /\ (Plain(p) <=> Plain(Rev(p)))
  /\ \A n \in NextLanes(at, a) \ {a} : Found(a, n, 0) # {} /\ \A q \in Found(n, b, max) : a \notin Elems(q) /\ len[n] + LenOf(q) <= max /\ n # b => <<a>> \o q \in Found(a, b, max)
(* Consecutive ranges of a route meet at a branch point. *)
EndAt(n, s) == IF s = 0 THEN "start" ELSE "finish"
RoutesMeet(max) == \A a, b \in Lanes : \A p \in Found(a, b, max) : \A r \in Routes(p, 0, 0) : \A x, y \in r :
  y.i = x.i + 1 => \E f \in GoesOn(at, x.lane, EndAt(x.lane, x.s1)) : f.lane = y.lane /\ f.end = EndAt(y.lane, y.s0)
=============================================================================
