----------------------------- MODULE Positions -----------------------------
(* Mapping inertial points to road positions.  Lanes are straight, along one of the four axis directions, with integer *)
(* coordinates, so that every distance is the root of an integer.                                                      *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES lanes,   \* set of [id, seg, x, y, z, q, len, rmin, rmax, smin, smax, hmin, hmax]; q: quarter turns
          lin,     \* linear tolerance
          frame,   \* translation of the backend frame
          act
vars == <<lanes, lin, frame, act>>

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
Cos(q) == CASE q = 0 -> 1 [] q = 2 -> -1 [] OTHER -> 0
Sin(q) == CASE q = 1 -> 1 [] q = 3 -> -1 [] OTHER -> 0
At(l, s, r, h) == [x |-> l.x + frame.x + Cos(l.q) * s - Sin(l.q) * r, y |-> l.y + frame.y + Sin(l.q) * s + Cos(l.q) * r, z |-> l.z + frame.z + h]
(* The closest point of the lane (lateral bounds r0, r1) to p. *)
Proj(l, p, r0, r1) ==
  LET dx == p.x - l.x - frame.x dy == p.y - l.y - frame.y
      s == Clamp(Cos(l.q) * dx + Sin(l.q) * dy, 0, l.len)
      r == Clamp(Cos(l.q) * dy - Sin(l.q) * dx, r0, r1)
      h == Clamp(p.z - l.z - frame.z, l.hmin, l.hmax)
      n == At(l, s, r, h) IN
  [lane |-> l.id, s |-> s, r |-> r, h |-> h, x |-> n.x, y |-> n.y, z |-> n.z, d2 |-> Sq(p.x - n.x) + Sq(p.y - n.y) + Sq(p.z - n.z)]
OnLane(l, p) == Proj(l, p, l.rmin, l.rmax)
OnSegment(l, p) == Proj(l, p, l.smin, l.smax)
LaneOf(id) == CHOOSE l \in lanes : l.id = id
Least(T, F(_)) == {t \in T : \A u \in T : F(t) <= F(u)}

(* The best of the positions of all the lanes. *)
Dist(t) == t.d2
Height(t) == t.h
Side(t) == Abs(t.r)
Inner(t) == LET l == LaneOf(t.lane) IN t.r >= l.rmin /\ t.r < l.rmax
ByLane(T) == Least(T, Side) \cup Least({t \in T : Inner(t)}, Side)
BestOf(C) ==
  LET T == Least(C, Dist)
      segs == {LaneOf(t.lane).seg : t \in T} IN
  IF \A t \in T : t.d2 = 0 THEN ByLane(IF Cardinality(segs) > 1 THEN Least(T, Height) ELSE T)   \* p is on these lanes
  ELSE IF Cardinality(segs) = 1 THEN ByLane(T) ELSE T
Best(p) == BestOf({OnLane(l, p) : l \in lanes})
Near(p, radius) == {t \in {OnLane(l, p) : l \in lanes} : radius = -1 \/ t.d2 <= Sq(radius)}     \* -1: infinite
(* With radius 0, positions within the tolerance may be found too. *)
MayNear(p, radius) == IF radius = 0 THEN {t \in {OnLane(l, p) : l \in lanes} : t.d2 <= Sq(lin)} ELSE {}

Init == lanes = {} /\ lin = 1 /\ frame = [x |-> 0, y |-> 0, z |-> 0] /\ act = [op |-> "new"]
Same == UNCHANGED <<lanes, lin, frame>>
Throws == [lane |-> "throws"]
ToRoad(p) ==
  /\ LET w == [any_of |-> IF lanes = {} THEN {Throws} ELSE Best(p)] IN
     act' = [op |-> "ToRoad", p |-> p, res |-> [brute |-> w, tree |-> w]]
  /\ Same
ToRoadHint(p, hint) ==
  /\ LET w == IF hint = "null" THEN Throws ELSE OnLane(LaneOf(hint), p) IN
     act' = [op |-> "ToRoadHint", p |-> p, hint |-> hint, res |-> [brute |-> w, tree |-> w]]
  /\ Same
(* radius -1 is infinite, -2 and less negative *)
Find(p, radius) ==
  /\ LET w == IF radius < -1 THEN {Throws} ELSE [between |-> <<Near(p, radius), MayNear(p, radius) \ Near(p, radius)>>] IN
     act' = [op |-> "Find", p |-> p, radius |-> radius, res |-> [brute |-> w, tree |-> w, fn |-> w]]
  /\ Same
(* Filtering keeps exactly the results that pass, in their order. *)
Filter(p, keep, d2) ==
  /\ act' = [op |-> "Filter", p |-> p, keep |-> keep, d2 |-> d2,
             res |-> [kept |-> {t \in Near(p, -1) : t.lane \in keep /\ t.d2 <= d2}, ordered |-> TRUE]]
  /\ Same
Lane(id, p) == act' = [op |-> "Lane", lane |-> id, p |-> p, res |-> [lane |-> OnLane(LaneOf(id), p), segment |-> OnSegment(LaneOf(id), p)]] /\ Same
ToInertial(id, s, r, h) == act' = [op |-> "ToInertial", lane |-> id, s |-> s, r |-> r, h |-> h, res |-> At(LaneOf(id), s, r, h)] /\ Same

----------------------------------------------------------------------------
(* What the choice guarantees, for the points in P. *)
Contains(l, p) == OnLane(l, p).d2 = 0
Guarantees(P) ==
  lanes # {} =>
  \A p \in P :
    /\ Best(p) # {}
    /\ \A t \in Best(p) : /\ \A l \in lanes : OnLane(l, p).d2 >= t.d2
                          /\ At(LaneOf(t.lane), t.s, t.r, t.h) = [x |-> t.x, y |-> t.y, z |-> t.z]
                          /\ (\E l \in lanes : Contains(l, p)) => Contains(LaneOf(t.lane), p)
                          /\ OnLane(LaneOf(t.lane), [x |-> t.x, y |-> t.y, z |-> t.z]).d2 = 0
    /\ Best(p) \subseteq Near(p, -1) /\ Cardinality(Near(p, -1)) = Cardinality(lanes)
    /\ \A r \in {0, 1, 2} : Near(p, r) \subseteq Near(p, r + 1)
=============================================================================
