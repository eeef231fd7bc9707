------------------------------- MODULE Routes -------------------------------
(* routing::Phase and routing::Route.  Lanes are those of Positions, with [o] their order in their segment, from right *)
(* to left; lane ends are placed as in Topo.                                                                          *)
EXTENDS Positions, Topo

VARIABLES at,      \* placement of the lane ends
          phases   \* the phases of the route: sequence of [tol, starts, ends, ranges]; positions [lane, s, r, h]; ranges [lane, s0, s1]
rvars == <<vars, at, phases>>
net == <<lanes, lin, frame, at>>

SMin(g) == IF g.s0 < g.s1 THEN g.s0 ELSE g.s1
SMax(g) == IF g.s0 < g.s1 THEN g.s1 ELSE g.s0
Holds(g, s, tol) == s >= SMin(g) - tol /\ s <= SMax(g) + tol
Known(id) == \E l \in lanes : l.id = id
InRanges(pos, ranges, tol) == \E i \in DOMAIN ranges : ranges[i].lane = pos.lane /\ Holds(ranges[i], pos.s, tol)
LeftOf(a, b) == LET k == LaneOf(a) m == LaneOf(b) IN m.seg = k.seg /\ m.o = k.o + 1     \* b is next to a, at its left

(* The rules of a phase. *)
PhaseOk(ph, index, netw) ==
  /\ index >= 0 /\ ph.tol >= 0 /\ netw
  /\ \A q \in {ph.starts, ph.ends} : q # <<>> /\ \A i \in DOMAIN q : q[i].lane # "null"
  /\ ph.ranges # <<>>
  /\ \A i \in DOMAIN ph.ranges : LET g == ph.ranges[i] IN Known(g.lane) /\ SMax(g) <= LaneOf(g.lane).len + ph.tol
  /\ \A q \in {ph.starts, ph.ends} : \A i \in DOMAIN q : InRanges(q[i], ph.ranges, ph.tol)
  /\ \A i \in DOMAIN ph.ranges \ {1} : LET a == ph.ranges[i - 1].lane b == ph.ranges[i].lane IN LeftOf(a, b) \/ LeftOf(b, a)
(* Ranges are documented to come from right to left; other orders are left open. *)
Ordered(ph) == \A i \in DOMAIN ph.ranges \ {1} : LeftOf(ph.ranges[i - 1].lane, ph.ranges[i].lane)
EncPos(q) == [i \in DOMAIN q |-> [i |-> i, p |-> q[i]]]
EncRng(q) == [i \in DOMAIN q |-> [i |-> i, g |-> q[i]]]
EncPhase(ph, index) == [index |-> index, tol |-> ph.tol, starts |-> EncPos(ph.starts), ends |-> EncPos(ph.ends), ranges |-> EncRng(ph.ranges)]
NoPhase == [index |-> -1, tol |-> 0, starts |-> <<>>, ends |-> <<>>, ranges |-> <<>>]

(* Where a point is in phase k: in one of its ranges, or at the nearest extent of one. *)
Extents(i, g, t, p) ==
  LET l == LaneOf(g.lane)
      Ext(s) == LET n == At(l, s, 0, 0) IN [range |-> i - 1, lane |-> l.id, s |-> s, r |-> 0, h |-> 0, x |-> n.x, y |-> n.y, z |-> n.z,
                                           d2 |-> Sq(p.x - n.x) + Sq(p.y - n.y) + Sq(p.z - n.z)]
      d0 == Abs(t.s - g.s0) d1 == Abs(t.s - g.s1) IN
  IF d0 < d1 THEN {Ext(g.s0)} ELSE IF d1 < d0 THEN {Ext(g.s1)} ELSE Least({Ext(g.s0), Ext(g.s1)}, Dist) \cup {Ext(g.s0)}
Ranged(i, t) == [range |-> i - 1, lane |-> t.lane, s |-> t.s, r |-> t.r, h |-> t.h, x |-> t.x, y |-> t.y, z |-> t.z, d2 |-> t.d2]
InRange(i, g, tol, p) ==
  LET t == OnLane(LaneOf(g.lane), p) IN IF Holds(g, t.s, tol) THEN {Ranged(i, t)} ELSE Extents(i, g, t, p)
InPhase(ph, p) == BestOf(UNION {InRange(i, ph.ranges[i], ph.tol, p) : i \in DOMAIN ph.ranges})
Center(pos) == LET l == LaneOf(pos.lane) IN OnLane(l, At(l, pos.s, 0, 0))
InPhaseRoad(ph, pos) ==
  IF InRanges(pos, ph.ranges, ph.tol)
  THEN {Ranged(i, Center(pos)) : i \in {j \in DOMAIN ph.ranges : ph.ranges[j].lane = pos.lane /\ Holds(ph.ranges[j], pos.s, ph.tol)}}
  ELSE InPhase(ph, At(LaneOf(pos.lane), pos.s, pos.r, pos.h))
Tag(k, t) == [phase |-> k - 1, range |-> t.range, lane |-> t.lane, s |-> t.s, r |-> t.r, h |-> t.h, x |-> t.x, y |-> t.y, z |-> t.z, d2 |-> t.d2]
InRoute(p) == BestOf(UNION {{Tag(k, t) : t \in InPhase(phases[k], p)} : k \in DOMAIN phases})
InRouteRoad(pos) ==
  LET K == {k \in DOMAIN phases : InRanges(pos, phases[k].ranges, phases[k].tol)} IN
  IF K = {} THEN InRoute(At(LaneOf(pos.lane), pos.s, pos.r, pos.h))
  ELSE UNION {{Tag(k, t) : t \in InPhaseRoad(phases[k], pos)} : k \in K}

(* Relation of the range at place q with respect to the one at place p; places are <<phase, range>>. *)
RangeAt(p) == phases[p[1]].ranges[p[2]]
Places == UNION {{<<k, i>> : i \in DOMAIN phases[k].ranges} : k \in DOMAIN phases}
Ways1(g) == IF g.s0 < g.s1 THEN {1} ELSE IF g.s0 > g.s1 THEN {-1} ELSE {1, -1}     \* direction of travel
Side3(a, sa, b, sb, way) ==
  LET u == At(LaneOf(a), sa, 0, 0) v == At(LaneOf(b), sb, 0, 0) l == LaneOf(a)
      c == way * (Cos(l.q) * (v.y - u.y) - Sin(l.q) * (v.x - u.x)) IN
  IF Sq(v.x - u.x) + Sq(v.y - u.y) + Sq(v.z - u.z) <= Sq(lin) THEN {"Straight"} ELSE IF c > 0 THEN {"Left"} ELSE IF c < 0 THEN {"Right"} ELSE {"Left", "Right"}
Rel(p, q) ==
  LET a == RangeAt(p) b == RangeAt(q) IN
  IF p[1] > q[1] + 1 \/ q[1] > p[1] + 1 THEN {"Unrelated"}
  ELSE IF p = q THEN {"Coincident"}
  ELSE IF p[1] = q[1] THEN {LET left == (q[2] - p[2]) * w > 0 IN
                            IF Abs(q[2] - p[2]) = 1 THEN (IF left THEN "AdjacentLeft" ELSE "AdjacentRight") ELSE IF left THEN "Left" ELSE "Right" : w \in Ways1(a)}
  ELSE IF q[1] > p[1] THEN UNION {{"Succeeding" \o x : x \in Side3(a.lane, a.s1, b.lane, b.s0, w)} : w \in Ways1(a)}
  ELSE UNION {{"Preceding" \o x : x \in Side3(a.lane, a.s0, b.lane, b.s1, w)} : w \in Ways1(a)}
PlacesOf(g) == {p \in Places : RangeAt(p).lane = g.lane /\ Holds(RangeAt(p), g.s0, lin) /\ Holds(RangeAt(p), g.s1, lin)}
Relation(a, b) == IF PlacesOf(a) = {} \/ PlacesOf(b) = {} THEN {"Unknown"} ELSE UNION {Rel(p, q) : p \in PlacesOf(a), q \in PlacesOf(b)}

(* Lane routes from place p to place q: straight back from q if possible, or else moving to the nearest range of the phase *)
(* from which that is possible.                                                                                            *)
Back(q) == {r \in Places : r[1] = q[1] - 1 /\ "PrecedingStraight" \in Rel(q, r)}
RECURSIVE Steps(_, _)
Steps(p, q) == IF p[2] = q[2] THEN <<q>> ELSE Append(Steps(p, <<q[1], IF q[2] > p[2] THEN q[2] - 1 ELSE q[2] + 1>>), q)
NoWay == <<<<0, 0>>>>
RECURSIVE WaysBack(_, _)
WaysBack(p, q) ==
  IF q[1] < p[1] THEN {NoWay}
  ELSE IF q[1] = p[1] THEN {Steps(p, q)}
  ELSE IF Back(q) # {} THEN UNION {{Append(w, q) : w \in WaysBack(p, r)} : r \in Back(q)}
  ELSE LET J == {j \in DOMAIN phases[q[1]].ranges : Back(<<q[1], j>>) # {}}
           Hops(j) == Abs(j - q[2]) IN
       IF J = {} THEN {NoWay}
       ELSE UNION {{Append(w, q) : w \in WaysBack(p, <<q[1], IF j > q[2] THEN q[2] + 1 ELSE q[2] - 1>>)} : j \in Least(J, Hops)}
EncWay(w) == IF w[1] = <<0, 0>> THEN {[i |-> 0, g |-> [lane |-> "throws", s0 |-> 0, s1 |-> 0]]} ELSE {[i |-> k, g |-> RangeAt(w[k])] : k \in DOMAIN w}
StartPlaces(pos) ==
  LET P == PlacesOf([lane |-> pos.lane, s0 |-> pos.s, s1 |-> pos.s]) IN
  IF P # {} THEN P ELSE {<<t.phase + 1, t.range + 1>> : t \in InRouteRoad(pos)}
EndPlaces ==
  LET ph == phases[Len(phases)]
      e == ph.ends[1] IN {<<Len(phases), i>> : i \in {j \in DOMAIN ph.ranges : ph.ranges[j].lane = e.lane /\ Holds(ph.ranges[j], e.s, ph.tol)}}
LaneRoutes(pos) == UNION {WaysBack(p, q) : p \in StartPlaces(pos), q \in EndPlaces}

(* Whether each phase ends where the next one starts. *)
Close(a, b) == LET u == At(LaneOf(a.lane), a.s, a.r, a.h) v == At(LaneOf(b.lane), b.s, b.r, b.h) IN Sq(v.x - u.x) + Sq(v.y - u.y) + Sq(v.z - u.z) <= Sq(lin)
NearEnd(a) == IF 2 * a.s <= LaneOf(a.lane).len THEN "start" ELSE "finish"
Joins(a, b) == Close(a, b) /\ (a.lane = b.lane \/ \E x \in GoesOn(at, a.lane, NearEnd(a)) : x.lane = b.lane /\ x.end = NearEnd(b))
Fan(e, S) == {j \in DOMAIN S : Joins(e, S[j])}
Matched(E, S) == \E f \in [DOMAIN E -> DOMAIN S] : (\A i \in DOMAIN E : f[i] \in Fan(E[i], S)) /\ \A i, j \in DOMAIN E : f[i] = f[j] => i = j
Connected(P) ==
  /\ Len(P[1].starts) = 1 /\ Len(P[Len(P)].ends) = 1
  /\ \A k \in DOMAIN P \ {1} : Len(P[k - 1].ends) = Len(P[k].starts) /\ Matched(P[k - 1].ends, P[k].starts)
(* Some position could be matched in several ways. *)
Ambiguous(P) == \E k \in DOMAIN P \ {1} : \E i \in DOMAIN P[k - 1].ends : Cardinality(Fan(P[k - 1].ends[i], P[k].starts)) > 1

----------------------------------------------------------------------------
RSame == UNCHANGED <<net, phases>>
Res(r) == act' = r
Phase(index, netw, ph) ==
  /\ LET ok == {EncPhase(ph, index)} no == {NoPhase} IN
     act' = [op |-> "Phase", index |-> index, netw |-> netw, ph |-> ph,
             res |-> [any_of |-> IF ~PhaseOk(ph, index, netw) THEN no ELSE IF Ordered(ph) THEN ok ELSE ok \cup no]]
  /\ RSame
(* Building a route of phases that can be built. *)
SetRoute(P, netw) ==
  /\ act' = [op |-> "SetRoute", phases |-> P, netw |-> netw,
             res |-> IF P = <<>> \/ ~netw THEN [size |-> 0, phases |-> <<>>, start |-> <<>>, end |-> <<>>]
                     ELSE [size |-> Len(P), phases |-> [k \in DOMAIN P |-> EncPhase(P[k], k - 1)], start |-> <<P[1].starts[1]>>, end |-> <<P[Len(P)].ends[1]>>]]
  /\ phases' = (IF P = <<>> \/ ~netw THEN phases ELSE P)
  /\ UNCHANGED net
Within(pos, ranges, tol) ==
  /\ act' = [op |-> "Within", p |-> pos, ranges |-> ranges, tol |-> tol,
             res |-> IF pos.lane = "null" \/ ranges = <<>> \/ tol < 0 THEN "throws" ELSE IF InRanges(pos, ranges, tol) THEN "yes" ELSE "no"]
  /\ RSame
PhaseAt(k, p) == act' = [op |-> "PhaseAt", k |-> k, p |-> p, res |-> [any_of |-> InPhase(phases[k], p)]] /\ RSame
PhaseAtRoad(k, pos) == act' = [op |-> "PhaseAtRoad", k |-> k, p |-> pos, res |-> [any_of |-> IF pos.lane = "null" THEN {[range |-> "throws"]} ELSE InPhaseRoad(phases[k], pos)]] /\ RSame
RouteAt(p) == act' = [op |-> "RouteAt", p |-> p, res |-> [any_of |-> InRoute(p)]] /\ RSame
RouteAtRoad(pos) == act' = [op |-> "RouteAtRoad", p |-> pos, res |-> [any_of |-> IF pos.lane = "null" THEN {[range |-> "throws"]} ELSE InRouteRoad(pos)]] /\ RSame
Relate(a, b) == act' = [op |-> "Relate", a |-> a, b |-> b, res |-> [any_of |-> Relation(a, b)]] /\ RSame
LaneRoute(pos) == act' = [op |-> "LaneRoute", p |-> pos, res |-> [any_of |-> IF pos.lane = "null" THEN {EncWay(NoWay)} ELSE {EncWay(w) : w \in LaneRoutes(pos)}]] /\ RSame
Validate == act' = [op |-> "Validate", res |-> IF Connected(phases) /\ Ambiguous(phases) THEN [any_of |-> {TRUE, FALSE}] ELSE [any_of |-> {Connected(phases)}]] /\ RSame
Get(k, i) == act' = [op |-> "Get", k |-> k, i |-> i, res |-> [any_of |-> {IF k \in DOMAIN phases /\ i \in DOMAIN phases[k].ranges THEN phases[k].ranges[i] ELSE [lane |-> "throws", s0 |-> 0, s1 |-> 0]}]] /\ RSame

----------------------------------------------------------------------------
(* What relations guarantee. *)
Mirror(x) == CASE x = "AdjacentLeft" -> "AdjacentRight" [] x = "AdjacentRight" -> "AdjacentLeft" [] x = "Left" -> "Right" [] x = "Right" -> "Left"
               [] x = "SucceedingLeft" -> "PrecedingRight" [] x = "SucceedingRight" -> "PrecedingLeft" [] x = "SucceedingStraight" -> "PrecedingStraight"
               [] x = "PrecedingLeft" -> "SucceedingRight" [] x = "PrecedingRight" -> "SucceedingLeft" [] x = "PrecedingStraight" -> "SucceedingStraight" [] OTHER -> x
Mirrored == \A p, q \in Places : {Mirror(x) : x \in Rel(p, q)} = Rel(q, p)
(* Locating a position of the route gives a place that holds it. *)
Located(P) == phases # <<>> => \A p \in P : \A t \in InRoute(p) :
  /\ t.lane = RangeAt(<<t.phase + 1, t.range + 1>>).lane
  /\ Holds(RangeAt(<<t.phase + 1, t.range + 1>>), t.s, phases[t.phase + 1].tol)
  /\ (\E k \in DOMAIN phases : \E i \in DOMAIN phases[k].ranges : OnLane(LaneOf(phases[k].ranges[i].lane), p).d2 = 0 /\ Holds(phases[k].ranges[i], OnLane(LaneOf(phases[k].ranges[i].lane), p).s, 0)) => t.d2 = 0
(* Lane routes go from range to neighbour or straight ahead. *)
WellFormed(w) == w = NoWay \/ \A k \in DOMAIN w \ {1} : \/ (w[k][1] = w[k - 1][1] /\ Abs(w[k][2] - w[k - 1][2]) = 1)
                                                          \/ (w[k][1] = w[k - 1][1] + 1 /\ "SucceedingStraight" \in Rel(w[k - 1], w[k]))
=============================================================================
