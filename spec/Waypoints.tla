------------------------------ MODULE Waypoints ------------------------------
(* Sampling a lane route, and what lanes and networks contain.  Lanes are those of Positions, except that the bounds of *)
(* the second half of a lane may be wider (wide) and those of its right side higher (tall).                             *)
EXTENDS Positions

Names == {x.id : x \in lanes}
(* A route is a sequence of ranges [lane, s0, s1], each travelled from s0 to s1, in either direction. *)
Span(g) == Abs(g.s1 - g.s0)
Dir(g) == IF g.s1 >= g.s0 THEN 1 ELSE -1
RECURSIVE Upto(_, _)
Upto(route, i) == IF i = 0 THEN 0 ELSE Upto(route, i - 1) + Span(route[i])     \* length of the first i ranges
Total(route) == Upto(route, Len(route))
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
(* The points at distance d along the route: one, or where ranges meet the ends of both. *)
PointsAt(route, d) ==
  {At(LaneOf(route[i].lane), route[i].s0 + Dir(route[i]) * (d - Upto(route, i - 1)), 0, 0) :
     i \in {k \in DOMAIN route : Upto(route, k - 1) <= d /\ d <= Upto(route, k)}}
Step(route, rate) == Max(lin, Min(rate, Total(route)))
Distances(route, rate) ==
  LET R == Step(route, rate) IN
  IF R = 0 THEN <<0>> ELSE [k \in 1 .. ((Total(route) \div R) + 1) |-> (k - 1) * R]
Known(route) == \A i \in DOMAIN route : route[i].lane \in Names
Listed(route, ds) == {[i |-> k, p |-> [any_of |-> PointsAt(route, ds[k])]] : k \in DOMAIN ds}
(* Every step, and the end of the route when the steps do not lead there; within tolerance of it, the end may be left out. *)
Samples(route, rate) ==
  LET ds == Distances(route, rate)
      rest == Total(route) - ds[Len(ds)]
      more == Append(ds, Total(route)) IN
  IF rate <= 0 \/ ~Known(route) THEN [any_of |-> {{"throws"}}]
  ELSE [any_of |-> (IF rest <= lin THEN {Listed(route, ds)} ELSE {})
                   \cup (IF rest > 0 \/ Total(route) = 0 THEN {Listed(route, more)} ELSE {})]
Sample(route, rate) == act' = [op |-> "Sample", route |-> route, rate |-> rate, res |-> Samples(route, rate)] /\ Same

(* What the code does: walk each range from where the last step left off. *)
RECURSIVE WalkRange(_, _, _), Walk(_, _, _, _)
WalkRange(from, to, R) == IF from > to THEN <<>> ELSE <<from>> \o WalkRange(from + R, to, R)
Walk(route, i, carry, R) ==   \* carry: distance since the last sample, at the beginning of range i
  IF i > Len(route) THEN IF carry > lin THEN <<Total(route)>> ELSE <<>>
  ELSE LET ds == WalkRange(R - carry, Span(route[i]), R) IN
       [k \in DOMAIN ds |-> Upto(route, i - 1) + ds[k]]
       \o Walk(route, i + 1, IF ds = <<>> THEN carry + Span(route[i]) ELSE Span(route[i]) - ds[Len(ds)], R)
WalkAgrees(route, rate) ==
  (rate > 0 /\ Known(route)) =>
    LET R == Step(route, rate)
        ds == Distances(route, rate)
        w == IF R = 0 THEN <<0>> ELSE <<0>> \o Walk(route, 1, 0, R) IN
    w = ds \o (IF Total(route) - ds[Len(ds)] > lin THEN <<Total(route)>> ELSE <<>>)
Covered(route, rate) ==
  (rate > 0 /\ Known(route)) =>
    LET ds == Distances(route, rate) IN
    /\ \A k \in DOMAIN ds : PointsAt(route, ds[k]) # {}
    /\ \A k \in DOMAIN ds : k > 1 => ds[k] - ds[k - 1] = Step(route, rate)
    /\ Total(route) - ds[Len(ds)] < Max(1, Step(route, rate)) /\ Total(route) >= ds[Len(ds)]

YesNo(b) == IF b THEN "yes" ELSE "no"
Grow(l, s) == IF 2 * s > l.len THEN l.wide ELSE 0
Rise(l, r) == IF r < 0 THEN l.tall ELSE 0
(* By how much the position is out of the lane's segment, in its worst coordinate. *)
Out(v, lo, hi) == Max(0, Max(lo - v, v - hi))
Excess(l, s, r, h) ==
  Max(Out(s, 0, l.len), Max(Out(r, l.smin - Grow(l, s), l.smax + Grow(l, s)), Out(h, l.hmin, l.hmax + Rise(l, r))))
Holds(id, s, r, h) ==
  /\ LET x == Excess(LaneOf(id), s, r, h)
         w == IF x > 0 /\ x = lin THEN [any_of |-> {"yes", "no"}] ELSE YesNo(x <= lin) IN
     act' = [op |-> "Holds", lane |-> id, s |-> s, r |-> r, h |-> h, res |-> [lane |-> w, network |-> w]]
  /\ Same
HasLane(id) == act' = [op |-> "HasLane", lane |-> id, res |-> YesNo(id \in Names)] /\ Same
(* A network of the parts but those in gone; with the old constructor, a right-of-way state provider too. *)
Parts(old) == {"geometry", "rulebook", "lights", "intersections", "rings", "phases", "registry", "discrete", "range"} \cup (IF old THEN {"rightofway"} ELSE {})
Network(old, gone) ==
  act' = [op |-> "Network", old |-> old, gone |-> gone, res |-> IF gone \cap Parts(old) # {} THEN "throws" ELSE "all"] /\ Same
=============================================================================
