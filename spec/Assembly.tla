------------------------------ MODULE Assembly ------------------------------
(* Assembling a road geometry out of junctions, segments, lanes and branch points in any order.                      *)
(* Implementation: geometry_base::{RoadGeometry, Junction, Segment, Lane, BranchPoint}, api::BasicIdIndex.            *)
(* Elements exist from the start, each with a handle h; the road geometry is "rg".                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES elems,   \* set of [h, kind, id], kind one of "J", "S", "L", "B"
          link,    \* set of [p, i, h]: h is child number i (from 0) of p
          dead,    \* an element with an id in use was attached: only what was there before is still specified
          act
vars == <<elems, link, dead, act>>

Kind(h) == IF h = "rg" THEN "rg" ELSE (CHOOSE e \in elems : e.h = h).kind
Id(h) == (CHOOSE e \in elems : e.h = h).id
ParentKind(k) == CASE k = "J" -> "rg" [] k = "B" -> "rg" [] k = "S" -> "J" [] k = "L" -> "S"
Attached(h) == \E x \in link : x.h = h
Parent(h) == (CHOOSE x \in link : x.h = h).p
(* Children of one parent are numbered per kind (the road geometry has junctions and branch points). *)
KidsOf(p, k) == {x \in link : x.p = p /\ Kind(x.h) = k}
RECURSIVE Sub(_)
Sub(h) == {h} \cup UNION {Sub(x.h) : x \in {y \in link : y.p = h}}
RECURSIVE Rooted(_)
Rooted(h) == h = "rg" \/ (Attached(h) /\ Rooted(Parent(h)))
InRg == {e.h : e \in {f \in elems : Rooted(f.h)}}
Clash(a, b) == a # b /\ Kind(a) = Kind(b) /\ Id(a) = Id(b)

Init == elems = {} /\ link = {} /\ dead = FALSE /\ act = [op |-> "new"]
Attach(h, p) ==
  LET S == Sub(h)
      ok == ~Rooted(p) \/ (\A a \in S : \A b \in S \cup InRg : ~Clash(a, b)) IN
  /\ ~dead /\ ~Attached(h) /\ Kind(p) = ParentKind(Kind(h))
  /\ IF ok THEN link' = link \cup {[p |-> p, i |-> Cardinality(KidsOf(p, Kind(h))), h |-> h]} /\ UNCHANGED dead
     ELSE dead' = TRUE /\ UNCHANGED link
  /\ act' = [op |-> "Attach", h |-> h, p |-> p, res |-> IF ok THEN "ok" ELSE "throws"]
  /\ UNCHANGED elems
(* A missing element is refused and nothing changes. *)
AttachNull(k, p) ==
  /\ ~dead /\ Kind(p) = ParentKind(k)
  /\ act' = [op |-> "AttachNull", kind |-> k, p |-> p, res |-> "throws"]
  /\ UNCHANGED <<elems, link, dead>>

At(p, k, i) == LET m == {x \in KidsOf(p, k) : x.i = i} IN IF m = {} THEN "none" ELSE (CHOOSE x \in m : TRUE).h
ById == {[kind |-> e.kind, id |-> e.id, h |-> LET m == {h \in InRg : Kind(h) = e.kind /\ Id(h) = e.id} IN
                                             IF m = {} THEN "none" ELSE CHOOSE h \in m : TRUE] : e \in elems}
Sure == IF dead THEN {x \in link : Rooted(x.h)} ELSE link
Obs == [dead |-> dead,
        kids |-> Sure,      \* what each parent has at each index
        up |-> {[h |-> x.h, p |-> x.p] : x \in Sure},     \* what each child names as its parent
        \* segments and lanes reach the road geometry through their parents
        lanes |-> {[h |-> x.h, index |-> x.i, left |-> At(x.p, "L", x.i + 1), right |-> At(x.p, "L", x.i - 1)] : x \in {y \in Sure : Kind(y.h) = "L"}},
        byid |-> IF dead THEN {b \in ById : b.h # "none"} ELSE ById,
        walk |-> IF dead THEN {} ELSE ById,               \* an index made by walking the geometry
        all |-> IF dead THEN {} ELSE {[id |-> Id(h), h |-> h] : h \in {g \in InRg : Kind(g) = "L"}},
        n |-> IF dead THEN {} ELSE {[p |-> "rg", k |-> k, n |-> Cardinality(KidsOf("rg", k))] : k \in {"J", "B"}}
             \cup {[p |-> e.h, k |-> IF e.kind = "J" THEN "S" ELSE "L", n |-> Cardinality(KidsOf(e.h, IF e.kind = "J" THEN "S" ELSE "L"))] : e \in {f \in elems : f.kind \in {"J", "S"}}}]
----------------------------------------------------------------------------
UniqueIds == \A a, b \in InRg : ~Clash(a, b)
OneParent == \A x, y \in link : x.h = y.h => x = y
Contiguous == \A x \in link : x.i < Cardinality(KidsOf(x.p, Kind(x.h)))
GrowOnly == [][(act'.op # "new") => (link \subseteq link' /\ (act'.res = "throws" => link' = link))]_vars
=============================================================================
