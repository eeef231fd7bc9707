------------------------------ MODULE RangeAlg ------------------------------
(* api::SRange, LaneSRange, LaneSRoute and IsIncluded: two range objects that can be modified in place, and queries *)
(* on routes and regions.                                                                                           *)
EXTENDS Ranges, TLC

CONSTANTS Tols       \* tolerances of the observations
LinTol == 1           \* linear tolerance of that road

VARIABLES pair,   \* function {1, 2} -> [lane, s0, s1]
          road,   \* set of [id, x, y, len, w]: the straight lanes (along x) of the road used by Included
          act
vars == <<pair, road, act>>

(* The intersection of two ranges: exact with no tolerance; otherwise its ends lie within |t| of the exact ones. *)
Abs(t) == IF t < 0 THEN -t ELSE t
NoRange == [none |-> TRUE]
Inter(a, b, t) ==
  LET lo == MaxOf(Lo(a), Lo(b))  hi == MinOf(Hi(a), Hi(b)) IN
  IF ~SIntersects(a, b, t) THEN NoRange
  ELSE [none |-> FALSE, s0 |-> [in |-> <<lo - Abs(t), lo + Abs(t)>>], s1 |-> [in |-> <<hi - Abs(t), hi + Abs(t)>>]]
Throws == [throws |-> TRUE]
PairAns(a, b, t) ==
  IF ~TolOk(a, b, t) THEN [tol |-> t, int |-> "throws", con |-> "throws", cap |-> Throws]
  ELSE [tol |-> t, int |-> IF SIntersects(a, b, t) THEN "yes" ELSE "no", con |-> IF SContains(a, b, t) THEN "yes" ELSE "no",
        cap |-> Inter(a, b, t)]
(* The same on lanes: ranges on different lanes have nothing in common, whatever the tolerance. *)
LaneAns(a, b, t) == IF a.lane # b.lane THEN [tol |-> t, int |-> "no", con |-> "no", cap |-> NoRange] ELSE PairAns(a, b, t)
Obs == [r |-> {[i |-> i, s0 |-> pair[i].s0, s1 |-> pair[i].s1, size |-> Size(pair[i]), withs |-> pair[i].s1 > pair[i].s0] : i \in {1, 2}},
        ab |-> {PairAns(pair[1], pair[2], t) : t \in Tols}, ba |-> {PairAns(pair[2], pair[1], t) : t \in Tols},
        lab |-> {LaneAns(pair[1], pair[2], t) : t \in Tols}, lba |-> {LaneAns(pair[2], pair[1], t) : t \in Tols}]

Init == pair = [i \in {1, 2} |-> R("p", 0, 0)] /\ road = {} /\ act = [op |-> "new"]
Ok(v) == IF v >= 0 THEN "ok" ELSE "throws"
SetS0(i, v) == /\ pair' = IF v >= 0 THEN [pair EXCEPT ![i].s0 = v] ELSE pair
               /\ act' = [op |-> "SetS0", i |-> i, v |-> v, res |-> Ok(v)] /\ UNCHANGED road
SetS1(i, v) == /\ pair' = IF v >= 0 THEN [pair EXCEPT ![i].s1 = v] ELSE pair
               /\ act' = [op |-> "SetS1", i |-> i, v |-> v, res |-> Ok(v)] /\ UNCHANGED road
SetLane(i, n) == pair' = [pair EXCEPT ![i].lane = n] /\ act' = [op |-> "SetLane", i |-> i, lane |-> n, res |-> "ok"] /\ UNCHANGED road
Make(i, u, v) == /\ pair' = IF u >= 0 /\ v >= 0 THEN [pair EXCEPT ![i].s0 = u, ![i].s1 = v] ELSE pair
                 /\ act' = [op |-> "Make", i |-> i, u |-> u, v |-> v, res |-> IF u >= 0 /\ v >= 0 THEN "ok" ELSE "throws"] /\ UNCHANGED road

(* Routes.  With a negative tolerance too large for some pair the query may be refused. *)
RoutesInt(A, B, t) == \E i \in DOMAIN A, j \in DOMAIN B : LIntersects(A[i], B[j], t) /\ TolOk(A[i], B[j], t)
RoutesOk(A, B, t) == \A i \in DOMAIN A, j \in DOMAIN B : A[i].lane = B[j].lane => TolOk(A[i], B[j], t)
RouteLen(A) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Size(A[k]) + S(k - 1) IN S(Len(A))
YesNo(b) == IF b THEN "yes" ELSE "no"
Routes(A, B, t) ==
  LET w == IF RoutesOk(A, B, t) THEN {YesNo(RoutesInt(A, B, t))} ELSE IF RoutesInt(A, B, t) THEN {"yes", "throws"} ELSE {"throws"} IN
  /\ act' = [op |-> "Routes", a |-> EncSeq(A), b |-> EncSeq(B), tol |-> t,
             res |-> [ab |-> [any_of |-> w], ba |-> [any_of |-> w], len |-> RouteLen(A)]]
  /\ UNCHANGED <<pair, road>>

(* Is point (x, y) in the region?  Surely so when it is within tolerance of some range, and surely not when for each range *)
(* it is farther than the tolerance from the lane or its projection is farther than the tolerance from the range.          *)
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
Sq(v) == v * v
LaneOf(n) == CHOOSE l \in road : l.id = n
DistY(l, y) == Clamp(y, l.y - l.w, l.y + l.w) - y
DistSq(l, a, b, x, y) == Sq(Clamp(x, l.x + a, l.x + b) - x) + Sq(DistY(l, y))
Near(r, x, y) == LET l == LaneOf(r.lane) IN DistSq(l, Lo(r), Hi(r), x, y) <= Sq(LinTol)
Maybe(r, x, y) == LET l == LaneOf(r.lane) s == Clamp(x - l.x, 0, l.len) IN
                  DistSq(l, 0, l.len, x, y) <= Sq(LinTol) /\ s >= Lo(r) - LinTol /\ s <= Hi(r) + LinTol
Included(x, y, z) ==
  LET w == IF z = <<>> \/ \E i \in DOMAIN z : z[i].lane \notin {l.id : l \in road} THEN {"throws"}
           ELSE IF \E i \in DOMAIN z : Near(z[i], x, y) THEN {"yes"}
           ELSE IF \E i \in DOMAIN z : Maybe(z[i], x, y) THEN {"yes", "no"} ELSE {"no"} IN
  /\ act' = [op |-> "Included", x |-> x, y |-> y, z |-> EncSeq(z), res |-> [any_of |-> w]]
  /\ UNCHANGED <<pair, road>>

----------------------------------------------------------------------------
(* What the definitions mean as sets of points (with no tolerance), and their symmetries. *)
Pts(r) == Lo(r)..Hi(r)
Rev(r) == R(r.lane, r.s1, r.s0)
A1 == pair[1]
B1 == pair[2]
SetMeaning == /\ SIntersects(A1, B1, 0) <=> Pts(A1) \cap Pts(B1) # {}
              /\ SContains(A1, B1, 0) <=> Pts(B1) \subseteq Pts(A1)
              /\ SIntersects(A1, B1, 0) => MaxOf(Lo(A1), Lo(B1))..MinOf(Hi(A1), Hi(B1)) = Pts(A1) \cap Pts(B1)
Symmetric == \A t \in Tols : SIntersects(A1, B1, t) = SIntersects(B1, A1, t) /\ TolOk(A1, B1, t) = TolOk(B1, A1, t)
Undirected == \A t \in Tols : /\ SIntersects(A1, B1, t) = SIntersects(Rev(A1), B1, t)
                              /\ SContains(A1, B1, t) = SContains(Rev(A1), Rev(B1), t)
Monotone == \A t \in Tols : t > 0 => /\ SIntersects(A1, B1, 0) => SIntersects(A1, B1, t)
                                     /\ SContains(A1, B1, 0) => SContains(A1, B1, t)
                                     /\ SContains(A1, B1, t) => SIntersects(A1, B1, t)
=============================================================================
