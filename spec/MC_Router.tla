----------------------------- MODULE MC_Router -----------------------------
EXTENDS Router, Json
K(id, seg, o, x, y, q, len) == [id |-> id, seg |-> seg, o |-> o, x |-> x, y |-> y, z |-> 0, q |-> q, len |-> len, rmin |-> -1, rmax |-> 1,
                                smin |-> -1, smax |-> 1, hmin |-> 0, hmax |-> 3]
A(lane, end, bp, side) == [lane |-> lane, end |-> end, bp |-> bp, side |-> side]
Two(lane, b0, s0, b1, s1) == {A(lane, "start", b0, s0), A(lane, "finish", b1, s1)}
(* Two ways from station 0 to 1, of opposite directions, and on to 2 and 3 by two lanes, of which one ends halfway. *)
Parallel == [lanes |-> {K("a", "a", 0, 0, 0, 0, 8), K("b", "b", 0, 8, 0, 2, 8), K("c0", "c", 0, 8, 0, 0, 8), K("c1", "c", 1, 8, 2, 0, 8),
                        K("d0", "d", 0, 24, 2, 2, 8), K("d1", "d", 1, 24, 0, 2, 4)},
             at |-> Two("a", "p0", "B", "p1", "A") \cup Two("b", "p1", "A", "p0", "B") \cup Two("c0", "p1", "B", "p2", "A") \cup Two("c1", "q1", "B", "q2", "A")
                    \cup Two("d0", "q3", "A", "q2", "B") \cup {A("d1", "start", "p3", "A"), A("d1", "finish", "dead", "B")}]
(* A ring of two, one of three and a spur. *)
Rings == [lanes |-> {K("a", "a", 0, 0, 0, 0, 8), K("b", "b", 0, 8, 0, 2, 8), K("c", "c", 0, 8, 0, 0, 8), K("d", "d", 0, 16, 0, 2, 16), K("e", "e", 0, 16, 0, 0, 8)},
          at |-> Two("a", "p0", "B", "p1", "A") \cup Two("b", "p1", "B", "p0", "A") \cup Two("c", "p1", "B", "p2", "A") \cup Two("d", "p2", "B", "p0", "A")
                 \cup Two("e", "p2", "B", "p3", "A")]
(* Two lanes throughout, in segments of alternating direction. *)
Road == [lanes |-> {K("a0", "a", 0, 0, 0, 0, 8), K("a1", "a", 1, 0, 2, 0, 8), K("b0", "b", 0, 16, 2, 2, 8), K("b1", "b", 1, 16, 0, 2, 8),
                    K("c0", "c", 0, 16, 0, 0, 16), K("c1", "c", 1, 16, 2, 0, 16)},
         at |-> Two("a0", "p0", "B", "p1", "A") \cup Two("a1", "q0", "B", "q1", "A") \cup Two("b0", "q2", "A", "q1", "B") \cup Two("b1", "p2", "A", "p1", "B")
                \cup Two("c0", "p2", "B", "p3", "A") \cup Two("c1", "q2", "B", "q3", "A")]
Nets == {Parallel, Rings, Road}
SetNet(g) ==
  /\ lanes' = g.lanes /\ lin' = 0 /\ frame' = [x |-> 0, y |-> 0, z |-> 0] /\ at' = g.at /\ phases' = <<>>
  /\ segOf' = [n \in {x.id : x \in lanes'} |-> (CHOOSE x \in lanes' : x.id = n).seg]
  /\ ends' = G!BpsAt(at', segOf') /\ node' = G!NodesOf(ends') /\ UNCHANGED tol
  /\ act' = [op |-> "Set", lanes |-> g.lanes, at |-> g.at, lin |-> 0, frame |-> [x |-> 0, y |-> 0, z |-> 0], tol |-> tol, res |-> "ok"]
Free == [phase |-> None, route |-> None, switch |-> TRUE]
Cons == {Free, [Free EXCEPT !.switch = FALSE], [Free EXCEPT !.phase = 7], [Free EXCEPT !.route = 15], [phase |-> 5, route |-> 21, switch |-> FALSE],
         [Free EXCEPT !.phase = -1], [Free EXCEPT !.route = -1], [phase |-> 9, route |-> 8, switch |-> TRUE], [phase |-> 8, route |-> 8, switch |-> TRUE]}
Pos == {[lane |-> l.id, s |-> s, r |-> 0, h |-> 0] : l \in lanes, s \in {0, 4, 8}}
Ps == {p \in Pos : p.s <= LaneOf(p.lane).len}
MCInit == Init /\ at = {} /\ phases = <<>> /\ segOf = <<>> /\ ends = <<>> /\ node = <<>> /\ tol = 1
Next ==
  \/ (act.op = "new" /\ \E g \in Nets : SetNet(g))
  \/ (act.op # "new" /\ \/ \E a, b \in Ps : \E c \in Cons : (a.s = 4 \/ b.s = 4 \/ c = Free) /\ Compute(a, b, c)
                        \/ \E a \in Ps : \E x \in {"null", "stray", "twin"} : LET b == [lane |-> x, s |-> 0, r |-> 0, h |-> 0] IN
                              a.s = 0 /\ (Compute(a, b, Free) \/ Compute(b, a, Free)))
Spec == MCInit /\ [][Next]_wvars
View == [lanes |-> lanes, at |-> at, new |-> act.op = "new"]
Sound == (act.op # "new") => \A a, b \in {p \in Ps : p.s # 8} : Direct(a, b) /\ \A c \in {x \in Cons : Legal(x)} : Good(a, b, c)
ASSUME PrintT(<<"C", ToJson([u |-> 1, lanes |-> Road.lanes, at |-> Road.at, lin |-> 0, tol |-> 1, frame |-> [x |-> 0, y |-> 0, z |-> 0]])>>)
EmitState == PrintT(<<"S", ToJson(View), ToJson([n |-> IF act.op = "new" THEN Cardinality(Road.lanes) ELSE Cardinality(lanes)]), ToJson(act.op = "new")>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
