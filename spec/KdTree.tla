------------------------------- MODULE KdTree -------------------------------
(* A k-d tree over a sequence of points with integer coordinates: nearest-point search and range search, and the     *)
(* axis-aligned boxes that range search depends on.  The first part says what the searches mean (exhaustively); the  *)
(* second models the tree the library builds (median split on alternating dimensions, any partition a median         *)
(* selection may leave) and its pruned searches, to be compared with the first on every tree of every point set.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pts,   \* sequence of points; a point is a sequence of integers
          act
vars == <<pts, act>>

Inf == 1000     \* the coordinate that stands for infinity in boxes
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Sq(x) == x * x
RECURSIVE SumSq(_, _, _)
SumSq(p, q, k) == IF k = 0 THEN 0 ELSE Sq(p[k] - q[k]) + SumSq(p, q, k - 1)
Dist2(p, q) == SumSq(p, q, Len(p))
(* A box: [lo, hi, tol].  The points it contains, with its tolerance; the points it surely contains. *)
Within(b, p, t) == \A k \in DOMAIN p : p[k] >= b.lo[k] - t /\ p[k] <= b.hi[k] + t
Inside(b, p) == Within(b, p, b.tol)
MayMeet(a, b, t) == \A k \in DOMAIN a.lo : a.lo[k] - t <= b.hi[k] /\ b.lo[k] <= a.hi[k] + t
MayHold(a, b, t) == \A k \in DOMAIN a.lo : a.lo[k] - t <= b.lo[k] /\ b.hi[k] <= a.hi[k] + t
ValidBox(b) == b.tol >= 0 /\ \A k \in DOMAIN b.lo : b.lo[k] <= b.hi[k]

Nearest(q, tol) == LET d == [i \in DOMAIN pts |-> Dist2(pts[i], q)] IN
                   {i \in DOMAIN pts : d[i] <= Sq(tol) \/ \A j \in DOMAIN pts : d[i] <= d[j]}
Sure(b) == {i \in DOMAIN pts : Within(b, pts[i], 0)}
Possible(b) == {i \in DOMAIN pts : Inside(b, pts[i])}

Init == pts = <<>> /\ act = [op |-> "new"]
(* tol = -Inf: the search without a tolerance. *)
DoNearest(q, tol) ==
  /\ act' = [op |-> "Nearest", q |-> q, tol |-> tol,
             res |-> [any_of |-> (IF tol < 0 /\ tol # -Inf THEN {} ELSE {[id |-> i] : i \in Nearest(q, IF tol < 0 THEN 0 ELSE tol)})
                                   \cup (IF tol <= 0 /\ tol # -Inf THEN {[id |-> 0]} ELSE {})]]
  /\ UNCHANGED pts
(* A point that only the tolerance of the region lets in may be left out. *)
DoRange(b) ==
  /\ act' = [op |-> "Range", b |-> b, res |-> [between |-> <<Sure(b), Possible(b) \ Sure(b)>>]]
  /\ UNCHANGED pts

YesNo(x) == IF x THEN "yes" ELSE "no"
Band(sure, maybe) == [any_of |-> IF sure THEN {"yes"} ELSE IF maybe THEN {"yes", "no"} ELSE {"no"}]
(* The answers of box a about box b; where only a tolerance decides, both answers are right. *)
Kinds(a, b) ==
  LET T == MaxOf(a.tol, b.tol) IN
  (IF MayHold(a, b, a.tol) THEN {"contained"} ELSE {})
    \cup (IF ~MayHold(a, b, 0) /\ MayMeet(a, b, a.tol + b.tol) THEN {"intersected"} ELSE {})
    \cup (IF ~MayMeet(a, b, 0) THEN {"disjointed"} ELSE {})
DoBoxes(a, b, p) ==
  /\ act' = [op |-> "Boxes", a |-> a, b |-> b, p |-> p,
             res |-> IF ~ValidBox(a) \/ ~ValidBox(b) THEN [any_of |-> {"throws"}]
                     ELSE [contains |-> YesNo(Inside(a, p)),
                           overlaps |-> [any_of |-> Kinds(a, b)],
                           holds |-> Band(MayHold(a, b, 0), MayHold(a, b, a.tol)),
                           meets |-> Band(MayMeet(a, b, 0), MayMeet(a, b, a.tol + b.tol)),
                           cap |-> IF ~MayMeet(a, b, 0)
                                   THEN IF MayMeet(a, b, a.tol + b.tol) THEN [any_of |-> {[some |-> FALSE], [some |-> TRUE]}]
                                        ELSE [some |-> FALSE]
                                   ELSE [some |-> TRUE, lo |-> {[k |-> k, v |-> MaxOf(a.lo[k], b.lo[k])] : k \in DOMAIN a.lo},
                                         hi |-> {[k |-> k, v |-> MinOf(a.hi[k], b.hi[k])] : k \in DOMAIN a.lo}],
                           vertices |-> {[x |-> x, y |-> y, z |-> z] : x \in {a.lo[1], a.hi[1]}, y \in {a.lo[2], a.hi[2]}, z \in {a.lo[3], a.hi[3]}}]]
  /\ UNCHANGED pts
Build(s) == pts' = s /\ act' = [op |-> "new", res |-> "ok"]
BuildEmpty == act' = [op |-> "BuildEmpty", res |-> "throws"] /\ UNCHANGED pts

----------------------------------------------------------------------------
(* The tree.  Nil, or [i: index of the point, l, r: subtrees]. *)
Nil == [i |-> 0]
RECURSIVE Trees(_, _)
Dim == Len(pts[1])
Trees(S, k) ==
  IF S = {} THEN {Nil}
  ELSE LET n == Cardinality(S) k2 == (k % Dim) + 1 IN
       UNION {UNION {{[i |-> m, l |-> x, r |-> y] : x \in Trees(L, k2), y \in Trees((S \ {m}) \ L, k2)} :
                     L \in {L \in SUBSET (S \ {m}) : /\ Cardinality(L) = n \div 2
                                                     /\ \A i \in L : pts[i][k] <= pts[m][k]
                                                     /\ \A i \in (S \ {m}) \ L : pts[i][k] >= pts[m][k]}} : m \in S}
(* Nearest search: descend on the query's side first, and enter the other side unless its splitting plane is at least *)
(* as far as the best so far.  tol2 stops the descent.                                                              *)
RECURSIVE Near(_, _, _, _, _)
Near(t, q, k, tol2, best) ==
  IF t.i = 0 THEN best
  ELSE LET d == Dist2(pts[t.i], q)
           b == IF best.i = 0 \/ d < best.d THEN [i |-> t.i, d |-> d] ELSE best IN
       IF b.d < tol2 THEN b
       ELSE LET dx == pts[t.i][k] - q[k] k2 == (k % Dim) + 1
                b2 == Near(IF dx > 0 THEN t.l ELSE t.r, q, k2, tol2, b) IN
            IF Sq(dx) >= b2.d THEN b2 ELSE Near(IF dx > 0 THEN t.r ELSE t.l, q, k2, tol2, b2)
(* Range search: the region of a node is its parent's cut by the splitting plane. *)
All == [lo |-> [k \in 1..Dim |-> -Inf], hi |-> [k \in 1..Dim |-> Inf], tol |-> 0]
RECURSIVE Below(_)
Below(t) == IF t.i = 0 THEN {} ELSE {t.i} \cup Below(t.l) \cup Below(t.r)
RECURSIVE Find(_, _, _, _)
Find(t, reg, k, b) ==
  IF t.i = 0 THEN {}
  ELSE LET me == IF Inside(b, pts[t.i]) THEN {t.i} ELSE {}
           lreg == [reg EXCEPT !.hi[k] = pts[t.i][k]] rreg == [reg EXCEPT !.lo[k] = pts[t.i][k]] k2 == (k % Dim) + 1 IN
       IF t.l.i = 0 /\ t.r.i = 0 THEN me
       ELSE IF ~MayMeet(b, reg, 0) THEN {}
       ELSE IF MayHold(b, reg, b.tol) THEN Below(t)
       ELSE me \cup Find(t.l, lreg, k2, b) \cup Find(t.r, rreg, k2, b)
TreeAgrees(Q, Tols, B) ==
  \A t \in Trees(DOMAIN pts, 1) :
    /\ Below(t) = DOMAIN pts
    /\ \A q \in Q, tol \in Tols : Near(t, q, 1, Sq(tol), [i |-> 0, d |-> 0]).i \in Nearest(q, tol)
    /\ \A b \in B : LET f == Find(t, All, 1, b) IN Sure(b) \subseteq f /\ f \subseteq Possible(b)
=============================================================================
