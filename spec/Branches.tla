------------------------------ MODULE Branches ------------------------------
(* Connecting lane ends through branch points.                                                                       *)
(* Implementation: geometry_base::{BranchPoint, Lane, LaneEndSet}, utility::AnalyzeConfluentSegments.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES lanes,    \* set of [id, seg]: the lanes and their segments
          bps,      \* branch points
          at,       \* set of [lane, end, bp, side]: where each lane end is
          defs,     \* set of [lane, end, to, toend]: default branches
          act
vars == <<lanes, bps, at, defs, act>>

Ends == {[lane |-> l.id, end |-> e] : l \in lanes, e \in {"start", "finish"}}
Le(x) == [lane |-> x.lane, end |-> x.end]
Placed(e) == \E x \in at : Le(x) = e
Of(e) == CHOOSE x \in at : Le(x) = e
SideSet(b, s) == {Le(x) : x \in {y \in at : y.bp = b /\ y.side = s}}
Confluent(e) == SideSet(Of(e).bp, Of(e).side)
Ongoing(e) == SideSet(Of(e).bp, IF Of(e).side = "A" THEN "B" ELSE "A")

Init == lanes = {} /\ bps = {} /\ at = {} /\ defs = {} /\ act = [op |-> "new"]
Add(b, side, lane, end) ==
  LET e == [lane |-> lane, end |-> end]
      ok == lane # "null" /\ ~Placed(e) IN
  /\ at' = IF ok THEN at \cup {[lane |-> lane, end |-> end, bp |-> b, side |-> side]} ELSE at
  /\ act' = [op |-> "Add", bp |-> b, side |-> side, lane |-> lane, end |-> end, res |-> IF ok THEN "ok" ELSE "throws"]
  /\ UNCHANGED <<lanes, bps, defs>>
(* The default must be a branch going on from the end, at this branch point. *)
SetDefault(b, lane, end, to, toend) ==
  LET e == [lane |-> lane, end |-> end]
      d == [lane |-> to, end |-> toend]
      ok == Placed(e) /\ Of(e).bp = b /\ d \in Ongoing(e) IN
  /\ defs' = IF ok THEN {x \in defs : Le(x) # e} \cup {[lane |-> lane, end |-> end, to |-> to, toend |-> toend]} ELSE defs
  /\ act' = [op |-> "SetDefault", bp |-> b, lane |-> lane, end |-> end, to |-> to, toend |-> toend, res |-> IF ok THEN "ok" ELSE "throws"]
  /\ UNCHANGED <<lanes, bps, at>>

Def(e) == {[lane |-> x.to, end |-> x.toend] : x \in {y \in defs : Le(y) = e}}
(* Segments are connected when ends of their lanes are confluent. *)
Segs == {l.seg : l \in lanes}
SegOf(n) == (CHOOSE l \in lanes : l.id = n).seg
Touch(s) == UNION {{SegOf(f.lane) : f \in Confluent(e)} : e \in {x \in Ends : SegOf(x.lane) = s}}
RECURSIVE Grow(_)
Grow(S) == LET T == S \cup UNION {Touch(s) : s \in S} IN IF T = S THEN S ELSE Grow(T)
AllPlaced == \A e \in Ends : Placed(e)
Obs == [sides |-> {[bp |-> b, side |-> s, ends |-> SideSet(b, s)] : b \in bps, s \in {"A", "B"}},
        at |-> {[lane |-> e.lane, end |-> e.end, bp |-> Of(e).bp, conf |-> Confluent(e), ong |-> Ongoing(e), def |-> Def(e)] : e \in {f \in Ends : Placed(f)}},
        loose |-> {e \in Ends : ~Placed(e)},
        comp |-> IF AllPlaced THEN {Grow({s}) : s \in Segs} ELSE {}]
----------------------------------------------------------------------------
OneSide == \A x, y \in at : Le(x) = Le(y) => x = y
ConfluentEquiv == \A e \in {f \in Ends : Placed(f)} : e \in Confluent(e) /\ (\A f \in Confluent(e) : Confluent(f) = Confluent(e) /\ Ongoing(f) = Ongoing(e))
OngoingMutual == \A e \in {f \in Ends : Placed(f)} : \A f \in Ongoing(e) : e \in Ongoing(f) /\ f \notin Confluent(e)
DefaultOngoing == \A d \in defs : [lane |-> d.to, end |-> d.toend] \in Ongoing(Le(d))
OneDefault == \A d, c \in defs : Le(d) = Le(c) => d = c
ComponentsPartition == AllPlaced => \A s, t \in Segs : Grow({s}) = Grow({t}) \/ Grow({s}) \cap Grow({t}) = {}
=============================================================================
