------------------------------- MODULE Boxes -------------------------------
(* Oriented bounding boxes.  A box is [c: centre, h: half sizes, o: <<roll, pitch, yaw>>, tol]; angles are indices in  *)
(* Angles, whose sines and cosines are fifths, so that everything is exact in integers: the axes of a box have         *)
(* coordinates in 1/125.                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES a, b, act
vars == <<a, b, act>>

Angles == <<[c |-> 5, s |-> 0], [c |-> 0, s |-> 5], [c |-> -5, s |-> 0], [c |-> 0, s |-> -5],
            [c |-> 4, s |-> 3], [c |-> 3, s |-> 4], [c |-> 4, s |-> -3], [c |-> -3, s |-> 4]>>
C(k) == Angles[k].c
S(k) == Angles[k].s
I3 == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
(* The axes of a box in the inertial frame, times 125: it is rolled, then pitched, then turned. *)
Axes(o) == LET cr == C(o[1]) sr == S(o[1]) cp == C(o[2]) sp == S(o[2]) cy == C(o[3]) sy == S(o[3]) IN
           <<<<5 * cy * cp, 5 * sy * cp, -25 * sp>>,
             <<cy * sp * sr - 5 * sy * cr, sy * sp * sr + 5 * cy * cr, 5 * cp * sr>>,
             <<cy * sp * cr + 5 * sy * sr, sy * sp * cr - 5 * cy * sr, 5 * cp * cr>>>>
Valid(x) == x.tol >= 0 /\ \A k \in I3 : x.h[k] >= 0
Signs == {<<x, y, z>> : x \in {-1, 1}, y \in {-1, 1}, z \in {-1, 1}}
(* Coordinate k (times 125) of corner s. *)
Corner(x, s, k) == 125 * x.c[k] + s[1] * x.h[1] * x.ax[1][k] + s[2] * x.h[2] * x.ax[2][k] + s[3] * x.h[3] * x.ax[3][k]
CornersOf(x) == {<<Corner(x, s, 1), Corner(x, s, 2), Corner(x, s, 3)>> : s \in Signs}
Full(x) == LET y == [c |-> x.c, h |-> x.h, o |-> x.o, tol |-> x.tol, ax |-> Axes(x.o)] IN
           [c |-> y.c, h |-> y.h, o |-> y.o, tol |-> y.tol, ax |-> y.ax, corners |-> CornersOf(y)]
Corners(x) == x.corners
(* Point p, given in 1/125, in x enlarged by t. *)
In125(x, p, t) == LET A == x.ax d == Minus(p, [k \in I3 |-> 125 * x.c[k]]) IN
                  \A k \in I3 : Abs(Dot(A[k], d)) <= 125 * 125 * (x.h[k] + t)
In(x, p, t) == In125(x, [k \in I3 |-> 125 * p[k]], t)
Holds(x, y) == \A p \in Corners(y) : In125(x, p, x.tol)
(* Two boxes have no point in common iff one of these directions separates them. *)
Directions(x, y) == LET A == x.ax B == y.ax IN
                    {A[k] : k \in I3} \cup {B[k] : k \in I3} \cup {Cross(A[j], B[k]) : j \in I3, k \in I3}
Reach(x, d) == LET A == x.ax IN x.h[1] * Abs(Dot(A[1], d)) + x.h[2] * Abs(Dot(A[2], d)) + x.h[3] * Abs(Dot(A[3], d))
Gap(x, y, d) == 125 * Abs(Dot(Minus(x.c, y.c), d)) - Reach(x, d) - Reach(y, d)
Meet(x, y) == \A d \in Directions(x, y) : Gap(x, y, d) <= 0
(* A point or a segment that only touches a box may be taken either way. *)
Fat(x) == Cardinality({k \in I3 : x.h[k] > 0}) >= 2
Surely(x, y) == Meet(x, y) /\ ((Fat(x) /\ Fat(y)) \/ \A d \in Directions(x, y) : d = <<0, 0, 0>> \/ Gap(x, y, d) < 0)
(* Apart by more than their tolerances (and an eighth). *)
Apart(x, y) == \E d \in Directions(x, y) :
                 Gap(x, y, d) \div 125 > (x.tol + y.tol) * (Abs(d[1]) + Abs(d[2]) + Abs(d[3])) + (Abs(d[1]) + Abs(d[2]) + Abs(d[3])) \div 8

YesNo(x) == IF x THEN "yes" ELSE "no"
Kinds(x, y) == IF Holds(x, y) THEN {"contained"} ELSE (IF Apart(x, y) THEN {} ELSE {"intersected"}) \cup (IF Surely(x, y) THEN {} ELSE {"disjointed"})
Describe(x) == [c |-> {[k |-> k, v |-> x.c[k]] : k \in I3}, h |-> {[k |-> k, v |-> x.h[k]] : k \in I3},
                o |-> {[k |-> k, v |-> x.o[k]] : k \in I3},
                corners |-> {[x |-> p[1], y |-> p[2], z |-> p[3]] : p \in Corners(x)}]
Pair(x, y) == [overlaps |-> [any_of |-> Kinds(x, y)], holds |-> YesNo(Holds(x, y)),
               meets |-> [any_of |-> (IF Apart(x, y) THEN {} ELSE {"yes"}) \cup (IF Surely(x, y) THEN {} ELSE {"no"})]]
Obs == [a |-> Describe(a), b |-> Describe(b), ab |-> Pair(a, b), ba |-> Pair(b, a)]

Unit == Full([c |-> <<0, 0, 0>>, h |-> <<1, 1, 1>>, o |-> <<1, 1, 1>>, tol |-> 0])
Init == a = Unit /\ b = Unit /\ act = [op |-> "new"]
Make(which, x) ==
  /\ IF ~Valid(x) THEN UNCHANGED <<a, b>> ELSE IF which = "a" THEN a' = Full(x) /\ UNCHANGED b ELSE b' = Full(x) /\ UNCHANGED a
  /\ act' = [op |-> "Make", which |-> which, box |-> x, res |-> IF Valid(x) THEN "ok" ELSE "throws"]
Contains(which, p) ==
  /\ LET x == IF which = "a" THEN a ELSE b IN act' = [op |-> "Contains", which |-> which, p |-> p, res |-> YesNo(In(x, p, x.tol))]
  /\ UNCHANGED <<a, b>>

----------------------------------------------------------------------------
(* The definitions agree with one another. *)
Sane == /\ \A x \in {a, b} : \A p \in Corners(x) : In125(x, p, 0)
        /\ In(a, a.c, 0)
        /\ Meet(a, b) = Meet(b, a) /\ Apart(a, b) = Apart(b, a)
        /\ ~(Meet(a, b) /\ Apart(a, b))
        /\ (\E p \in Corners(b) \cup {[k \in I3 |-> 125 * b.c[k]]} : In125(a, p, 0)) => Meet(a, b)
        /\ (a.tol = 0 /\ Holds(a, b)) => Meet(a, b)
        /\ \A x \in {a, b} : \A j \in I3, k \in I3 : Dot(x.ax[j], x.ax[k]) = IF j = k THEN 125 * 125 ELSE 0
=============================================================================
