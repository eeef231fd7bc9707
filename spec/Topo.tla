-------------------------------- MODULE Topo --------------------------------
(* How lane ends meet at branch points.  A placement of lane ends is a set of [lane, end, bp, side].                *)
EXTENDS Integers, Sequences, FiniteSets

LaneEnds == {"start", "finish"}
Other(e) == IF e = "start" THEN "finish" ELSE "start"
PlaceOf(at, n, e) == CHOOSE x \in at : x.lane = n /\ x.end = e
GoesOn(at, n, e) == LET p == PlaceOf(at, n, e) IN {x \in at : x.bp = p.bp /\ x.side # p.side}
(* The ways of going from a lane to another: through which end of each. *)
Conn(at, a, b) == {[out |-> e, in |-> f] : e \in LaneEnds, f \in LaneEnds} \cap
                  UNION {{[out |-> e, in |-> x.end] : x \in {y \in GoesOn(at, a, e) : y.lane = b}} : e \in LaneEnds}
NextLanes(at, a) == UNION {{x.lane : x \in GoesOn(at, a, e)} : e \in LaneEnds}
Elems(q) == {q[i] : i \in DOMAIN q}
(* All paths of distinct lanes that extend p up to lane b. *)
RECURSIVE PathsFrom(_, _, _)
PathsFrom(at, p, b) ==
  UNION {IF n = b THEN {Append(p, n)} ELSE PathsFrom(at, Append(p, n), b) : n \in NextLanes(at, p[Len(p)]) \ Elems(p)}
LanePaths(at, a, b) == IF a = b THEN {<<a>>} ELSE PathsFrom(at, <<a>>, b)
(* The ways of travelling along a path: one connection between each lane and the next. *)
RECURSIVE WaysFrom(_, _, _)
WaysFrom(at, p, k) == IF k >= Len(p) THEN {<<>>} ELSE {<<c>> \o w : c \in Conn(at, p[k], p[k + 1]), w \in WaysFrom(at, p, k + 1)}
Ways(at, p) == WaysFrom(at, p, 1)
(* A lane is left through the end it was entered by. *)
TurnsBack(w) == \E i \in DOMAIN w : i > 1 /\ w[i - 1].in = w[i].out
EncPath(p) == {[i |-> k, x |-> p[k]] : k \in DOMAIN p}
=============================================================================
