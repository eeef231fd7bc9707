------------------------------- MODULE Router -------------------------------
(* DistanceRouter: the routes between two road positions.  Lanes are those of Routes; the graph is the one of RoadGraph. *)
EXTENDS Routes
VARIABLES segOf, ends, node,   \* the road graph
          tol                  \* tolerance of the router
wvars == <<rvars, segOf, ends, node, tol>>
G == INSTANCE RoadGraph

RECURSIVE LanesUpTo(_, _)
LanesUpTo(s, k) == IF k < 0 THEN <<>> ELSE LanesUpTo(s, k - 1) \o (LET L == {l \in lanes : l.seg = s /\ l.o = k} IN IF L = {} THEN <<>> ELSE <<CHOOSE l \in L : TRUE>>)
SegLanes(s) == LanesUpTo(s, Cardinality(lanes))

(* How to traverse a path of the graph: each segment with the ends to enter and leave it by.  A start segment that is not *)
(* the first of the path is left by its start, an end segment that is not the last one is entered by its finish.          *)
EndAt(s, n) == CHOOSE e \in LaneEnds : G!NodeOf(s, e) = n
LegsOf(s, t, m, w) ==
  LET N == G!NodesAlong(m, w)
      mid == [i \in DOMAIN w |-> [seg |-> w[i], in |-> EndAt(w[i], N[i]), out |-> Other(EndAt(w[i], N[i]))]]
      pre == IF w = <<>> \/ w[1] # s THEN <<[seg |-> s, in |-> "finish", out |-> "start"]>> ELSE <<>>
      all == pre \o mid IN
  IF all[Len(all)].seg # t THEN Append(all, [seg |-> t, in |-> "finish", out |-> "start"]) ELSE all
Paths(m, n) == IF m = n THEN {<<>>} ELSE {w \in G!Walks(m, n, {m}) : G!Drivable(m, w)}

(* The lanes of leg x that lead through end e to leg y by its end f. *)
EndPos(l, e) == [lane |-> l.id, s |-> IF e = "start" THEN 0 ELSE l.len, r |-> 0, h |-> 0]
Ways2(x, e, y, f) == LET Leads(l) == \E z \in GoesOn(at, l.id, e) : LaneOf(z.lane).seg = y.seg /\ z.end = f
                         Q == SelectSeq(SegLanes(x.seg), Leads) IN [i \in DOMAIN Q |-> EndPos(Q[i], e)]
(* The station of a lane at the height of a position of a neighbour. *)
Level(pos, l) ==
  LET s == (pos.s * l.len) \div LaneOf(pos.lane).len IN
  IF s <= tol /\ l.len > tol THEN 0 ELSE IF l.len - s <= tol /\ l.len > tol THEN l.len ELSE s
PhaseOf(S, E, seg) ==
  LET L == SegLanes(seg) IN
  [tol |-> tol, starts |-> S, ends |-> E, ranges |-> [i \in DOMAIN L |-> [lane |-> L[i].id, s0 |-> Level(S[1], L[i]), s1 |-> Level(E[1], L[i])]]]
RouteOf(a, b, legs) ==
  LET S(k) == IF k = 1 THEN <<a>> ELSE Ways2(legs[k], legs[k].in, legs[k - 1], legs[k - 1].out)
      E(k) == IF k = Len(legs) THEN <<b>> ELSE Ways2(legs[k], legs[k].out, legs[k + 1], legs[k + 1].in) IN
  IF \E k \in DOMAIN legs : S(k) = <<>> \/ E(k) = <<>> THEN <<>> ELSE [k \in DOMAIN legs |-> PhaseOf(S(k), E(k), legs[k].seg)]
AllRoutes(a, b) ==
  LET s == LaneOf(a.lane).seg t == LaneOf(b.lane).seg
      m == G!NodeOf(s, "start") n == G!NodeOf(t, "finish") IN
  {P \in {RouteOf(a, b, LegsOf(s, t, m, w)) : w \in Paths(m, n)} : P # <<>> /\ Connected(P)}

(* Constraints. *)
None == -99
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
PhaseCost(p) == MinOf({Abs(p.ranges[i].s1 - p.ranges[i].s0) : i \in DOMAIN p.ranges})
RECURSIVE Cost(_)
Cost(P) == IF P = <<>> THEN 0 ELSE PhaseCost(P[1]) + Cost(Tail(P))
RECURSIVE Keeps(_, _, _)
Keeps(P, k, lane) ==     \* from this lane at phase k the end is reached without switching lanes
  IF k = Len(P) THEN lane = P[k].ends[1].lane
  ELSE \E e \in Elems(P[k].ends) : e.lane = lane /\ \E x \in Elems(P[k + 1].starts) : Joins(e, x) /\ Keeps(P, k + 1, x.lane)
LaneSwitch(P) == ~Keeps(P, 1, P[1].starts[1].lane)
Legal(c) == /\ (c.phase = None \/ c.phase >= 0) /\ (c.route = None \/ c.route >= 0)
            /\ (c.phase = None \/ c.route = None \/ c.route >= c.phase)
Admits(c, P) == /\ (c.phase = None \/ \A k \in DOMAIN P : PhaseCost(P[k]) <= c.phase)
                /\ (c.route = None \/ Cost(P) <= c.route)
                /\ (c.switch \/ ~LaneSwitch(P))
Found(a, b, c) == {P \in AllRoutes(a, b) : Admits(c, P)}

----------------------------------------------------------------------------
EncLeg(p, k) == [i |-> k, tol |-> p.tol, starts |-> Elems(p.starts), ends |-> Elems(p.ends), ranges |-> EncRng(p.ranges)]
EncRoute(P) == {EncLeg(P[k], k) : k \in DOMAIN P}
Stranger(p) == p.lane \in {"null", "stray", "twin"}     \* no lane, a lane of another network, and one with an id that exists
NewRouter(t) ==
  /\ act' = [op |-> "NewRouter", tol |-> t, res |-> IF t < 0 THEN "throws" ELSE "ok"]
  /\ tol' = (IF t < 0 THEN tol ELSE t) /\ UNCHANGED <<net, phases, segOf, ends, node>>
Compute(a, b, c) ==
  /\ act' = [op |-> "Compute", a |-> a, b |-> b, c |-> c,
             res |-> IF Stranger(a) \/ Stranger(b) \/ ~Legal(c) THEN [how |-> "throws", routes |-> {}]
                     ELSE [how |-> "ok", routes |-> {EncRoute(P) : P \in Found(a, b, c)}]]
  /\ UNCHANGED <<net, phases, segOf, ends, node, tol>>

----------------------------------------------------------------------------
(* What is guaranteed, for positions a, b and constraints c. *)
Good(a, b, c) ==
  \A P \in Found(a, b, c) :
    /\ P[1].starts = <<a>> /\ P[Len(P)].ends = <<b>> /\ Connected(P)
    /\ \A k \in DOMAIN P : PhaseOk(P[k], k - 1, TRUE)
    /\ \A k \in DOMAIN P \ {1} : LaneOf(P[k].ranges[1].lane).seg # LaneOf(P[k - 1].ranges[1].lane).seg
    /\ P \in Found(a, b, [phase |-> None, route |-> None, switch |-> TRUE])
    /\ (c.route # None => Cost(P) <= c.route)
    (* an alternative of opposite direction within a segment is the only way to come back to it *)
    /\ \A i, j \in DOMAIN P : (i < j /\ LaneOf(P[i].ranges[1].lane).seg = LaneOf(P[j].ranges[1].lane).seg) => i = 1 /\ j = Len(P)
(* Where the end is ahead on the same segment, the segment alone is a route. *)
Direct(a, b) == LaneOf(a.lane).seg = LaneOf(b.lane).seg => \E P \in AllRoutes(a, b) : Len(P) = 1
=============================================================================
