----------------------------- MODULE RoadGraph -----------------------------
(* routing::graph: the graph of a road geometry and the search of edge sequences in it.                             *)
EXTENDS Topo, TLC

VARIABLES at,      \* placement of the lane ends
          segOf,   \* lane -> segment
          ends,    \* segment -> end -> its branch points there
          node,    \* segment -> end -> the node there: a set of branch points
          act
net == <<at, segOf, ends, node>>
vars == <<at, segOf, ends, node, act>>
Segs == {segOf[n] : n \in DOMAIN segOf}

(* Branch points at one end of a segment belong to one node. *)
BpsAt(P, S) == [s \in {S[n] : n \in DOMAIN S} |-> [e \in LaneEnds |-> {PlaceOf(P, n, e).bp : n \in {m \in DOMAIN S : S[m] = s}}]]
RECURSIVE Grow(_, _)
Grow(B, all) == LET T == B \cup UNION {x \in all : x \cap B # {}} IN IF T = B THEN B ELSE Grow(T, all)
NodesOf(E) == LET all == {E[s][e] : s \in DOMAIN E, e \in LaneEnds} IN [s \in DOMAIN E |-> [e \in LaneEnds |-> Grow(E[s][e], all)]]
SetNet(P, S) == /\ at' = P /\ segOf' = S /\ ends' = BpsAt(P, S) /\ node' = NodesOf(ends')
BpsOf(s, e) == ends[s][e]
NodeOf(s, e) == node[s][e]
Ends == {ends[s][e] : s \in Segs, e \in LaneEnds}
Nodes == {node[s][e] : s \in Segs, e \in LaneEnds}
EdgesOf(n) == {s \in Segs : \E e \in LaneEnds : NodeOf(s, e) = n}
EndsAt(s, n) == {e \in LaneEnds : NodeOf(s, e) = n}

(* Paths that visit no node twice, from node m to another node n. *)
Far(s, m) == IF NodeOf(s, "start") = m THEN NodeOf(s, "finish") ELSE NodeOf(s, "start")
RECURSIVE Walks(_, _, _)
Walks(m, n, seen) ==
  UNION {LET k == Far(s, m) IN IF k \in seen THEN {} ELSE IF k = n THEN {<<s>>} ELSE {<<s>> \o w : w \in Walks(k, n, seen \cup {k})} : s \in EdgesOf(m)}
(* How two segments meet at a node: whether their lanes are on different sides of a branch point that they share. *)
SidesAt(s, e, b) == {PlaceOf(at, n, e).side : n \in {m \in DOMAIN segOf : segOf[m] = s /\ PlaceOf(at, m, e).bp = b}}
Meets(s, t, n) == {SidesAt(s, e, b) # SidesAt(t, f, b) : e \in EndsAt(s, n), f \in EndsAt(t, n), b \in UNION {BpsOf(s, x) : x \in EndsAt(s, n)} \cap UNION {BpsOf(t, x) : x \in EndsAt(t, n)}}
RECURSIVE NodesAlong(_, _)
NodesAlong(m, w) == IF w = <<>> THEN <<m>> ELSE <<m>> \o NodesAlong(Far(w[1], m), Tail(w))
Joint(m, w, i) == Meets(w[i], w[i + 1], NodesAlong(m, w)[i + 1])
Drivable(m, w) == \A i \in 1..(Len(w) - 1) : Joint(m, w, i) = {TRUE}
MaybeDrivable(m, w) == \A i \in 1..(Len(w) - 1) : TRUE \in Joint(m, w, i)

FindNode(lane, end) ==
  /\ act' = [op |-> "FindNode", lane |-> lane, end |-> end, res |-> [bps |-> NodeOf(segOf[lane], end), edges |-> EdgesOf(NodeOf(segOf[lane], end))]]
  /\ UNCHANGED net
(* Edge sequences between the nodes of two lane ends. *)
FindSeqs(a, ae, b, be) ==
  LET m == NodeOf(segOf[a], ae)
      n == NodeOf(segOf[b], be)
      W == IF m = n THEN {} ELSE Walks(m, n, {m}) IN
  /\ act' = [op |-> "FindSeqs", a |-> a, ae |-> ae, b |-> b, be |-> be,
             res |-> [between |-> <<{EncPath(w) : w \in {x \in W : Drivable(m, x)}},
                                    {EncPath(w) : w \in {x \in W : ~Drivable(m, x) /\ MaybeDrivable(m, x)}}>>]]
  /\ UNCHANGED net
(* Searching from or to a node of another graph. *)
FindStray(which, a, ae) ==
  /\ act' = [op |-> "FindStray", which |-> which, a |-> a, ae |-> ae, res |-> "throws"]
  /\ UNCHANGED net
EdgeEnd(s, t) ==
  LET es == {e \in LaneEnds : t \in EdgesOf(NodeOf(s, e))} IN
  /\ act' = [op |-> "EdgeEnd", s |-> s, t |-> t, res |-> IF s = t \/ es = {} THEN "none" ELSE [any_of |-> es]]
  /\ UNCHANGED net
Obs == [nodes |-> {[bps |-> n, edges |-> EdgesOf(n)] : n \in Nodes},
        edges |-> {[seg |-> s, a |-> NodeOf(s, "start"), b |-> NodeOf(s, "finish")] : s \in Segs}]
----------------------------------------------------------------------------
Partition == \A m, n \in Nodes : m = n \/ m \cap n = {}
Covers == UNION Nodes = {x.bp : x \in at}
EndsInOneNode == \A s \in Segs, e \in LaneEnds : \E n \in Nodes : BpsOf(s, e) \subseteq n
(* The partition is the finest one. *)
Finest == \A n \in Nodes : \A B \in (SUBSET n) \ {{}, n} : \E x \in Ends : x \cap B # {} /\ x \ B # {}
Rev(p) == [i \in DOMAIN p |-> p[Len(p) + 1 - i]]
Reversible == \A m, n \in Nodes : m # n =>
  /\ {Rev(w) : w \in Walks(m, n, {m})} = Walks(n, m, {n})
  /\ \A w \in Walks(m, n, {m}) : Drivable(m, w) = Drivable(n, Rev(w)) /\ NodesAlong(m, w)[Len(w) + 1] = n
                                 /\ Cardinality(Elems(NodesAlong(m, w))) = Len(w) + 1
=============================================================================
