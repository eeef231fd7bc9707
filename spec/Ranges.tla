------------------------------- MODULE Ranges -------------------------------
(* Longitudinal ranges of lanes.  A range is [lane, s0, s1]; it is directed (s0 > s1 runs against s) and inclusive. *)
EXTENDS Integers, Sequences, FiniteSets

Lo(r) == IF r.s0 < r.s1 THEN r.s0 ELSE r.s1
Hi(r) == IF r.s0 < r.s1 THEN r.s1 ELSE r.s0
Size(r) == Hi(r) - Lo(r)
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

(* Two intervals intersect within tolerance t when the gap between them is at most t; a negative t demands an *)
(* overlap of at least -t.                                                                                     *)
SIntersects(a, b, t) == Hi(b) - Lo(a) >= -t /\ Hi(a) - Lo(b) >= -t
(* b lies in a widened by t (shrunk if t < 0); s coordinates are never negative. *)
SContains(a, b, t) == Hi(b) <= Hi(a) + t /\ Lo(b) >= MaxOf(Lo(a) - t, 0)
(* A negative tolerance larger than half of the smaller range is refused. *)
TolOk(a, b, t) == t >= 0 \/ MinOf(Size(a), Size(b)) >= -2 * t

LIntersects(a, b, t) == a.lane = b.lane /\ SIntersects(a, b, t)
LContains(a, b, t) == a.lane = b.lane /\ SContains(a, b, t)

(* Encodings for the drivers: sequences become sets of indexed records, so that order survives. *)
EncSeq(z) == {[i |-> i, lane |-> z[i].lane, s0 |-> z[i].s0, s1 |-> z[i].s1] : i \in DOMAIN z}
DecSeq(e) == LET idx == {x.i : x \in e} IN [k \in 1..Cardinality(idx) |->
               LET x == CHOOSE y \in e : y.i = k IN [lane |-> x.lane, s0 |-> x.s0, s1 |-> x.s1]]
R(l, a, b) == [lane |-> l, s0 |-> a, s1 |-> b]
=============================================================================
