----------------------------- MODULE MC_Routes -----------------------------
(* A road of two segments, the second one maybe reversed and one lane narrower, shifted to the left; routes both ways. *)
EXTENDS Routes, Json
K(id, seg, o, x, y, q, len) == [id |-> id, seg |-> seg, o |-> o, x |-> x, y |-> y, z |-> 0, q |-> q, len |-> len, rmin |-> -1, rmax |-> 1,
                                smin |-> -1, smax |-> 1, hmin |-> 0, hmax |-> 3]
A(lane, end, bp, side) == [lane |-> lane, end |-> end, bp |-> bp, side |-> side]
First == {K("a0", "s", 0, 0, 0, 0, 2), K("a1", "s", 1, 0, 2, 0, 2), K("a2", "s", 2, 0, 4, 0, 2)}
FirstAt == {A("a0", "start", "p0", "B"), A("a1", "start", "p1", "B"), A("a2", "start", "p2", "B"),
            A("a0", "finish", "m0", "A"), A("a1", "finish", "m1", "A"), A("a2", "finish", "m2", "A")}
Along == [lanes |-> First \cup {K("b0", "t", 0, 2, 2, 0, 3), K("b1", "t", 1, 2, 4, 0, 3)},
          at |-> FirstAt \cup {A("b0", "start", "m1", "B"), A("b1", "start", "m2", "B"), A("b0", "finish", "n1", "A"), A("b1", "finish", "n2", "A")},
          back |-> FALSE]
Against == [lanes |-> First \cup {K("b0", "t", 0, 5, 4, 2, 3), K("b1", "t", 1, 5, 2, 2, 3)},
            at |-> FirstAt \cup {A("b0", "finish", "m2", "B"), A("b1", "finish", "m1", "B"), A("b0", "start", "n2", "A"), A("b1", "start", "n1", "A")},
            back |-> TRUE]
P(lane, s) == [lane |-> lane, s |-> s, r |-> 0, h |-> 0]
R(lane, s0, s1) == [lane |-> lane, s0 |-> s0, s1 |-> s1]
Ph(starts, ends, ranges) == [tol |-> 0, starts |-> starts, ends |-> ends, ranges |-> ranges]
U(k) == IF Against.lanes = lanes THEN 3 - k ELSE k          \* lane position in t at k from the segment s
Turned(k) == IF Against.lanes = lanes THEN 1 - k ELSE k       \* lane of t at slot k
B(k) == IF Turned(k) = 0 THEN "b0" ELSE "b1"
TRanges(x, y) == [i \in 1..2 |-> R(IF i = 1 THEN "b0" ELSE "b1", U(x), U(y))]
Eastward == <<Ph(<<P("a0", 0)>>, <<P("a1", 2), P("a2", 2)>>, <<R("a0", 0, 2), R("a1", 0, 2), R("a2", 0, 2)>>),
              Ph(<<P(B(0), U(0)), P(B(1), U(0))>>, <<P(B(1), U(3))>>, TRanges(0, 3))>>
Westward == <<Ph(<<P(B(0), U(3))>>, <<P(B(0), U(0)), P(B(1), U(0))>>, TRanges(3, 0)),
              Ph(<<P("a1", 2), P("a2", 2)>>, <<P("a0", 0)>>, <<R("a0", 2, 0), R("a1", 2, 0), R("a2", 2, 0)>>)>>
Cut == <<Ph(<<P("a0", 0)>>, <<P("a1", 1)>>, <<R("a0", 0, 1), R("a1", 0, 1)>>), Ph(<<P("a1", 1)>>, <<P("a2", 2)>>, <<R("a1", 1, 2), R("a2", 1, 2)>>),
         Ph(<<P(B(1), U(0))>>, <<P(B(1), U(2))>>, <<R(B(1), U(0), U(2))>>)>>
Broken == <<Ph(<<P("a0", 0)>>, <<P("a0", 2)>>, <<R("a0", 0, 2)>>), Ph(<<P(B(0), U(0))>>, <<P(B(0), U(3))>>, TRanges(0, 3))>>
ASSUME PrintT(<<"C", ToJson([u |-> 1, lanes |-> Along.lanes, at |-> Along.at, lin |-> 0, frame |-> [x |-> 0, y |-> 0, z |-> 0]])>>)
Pts == {[x |-> x, y |-> y, z |-> z] : x \in -1..6, y \in -2..6, z \in {0, 2}}
Rs == {R(l.id, x, y) : l \in lanes, x \in 0..3, y \in 0..3}
Probes == {g \in Rs : \/ \E p \in Places : RangeAt(p) = g
                      \/ g.s0 = 1 /\ g.s1 = 1}
MCInit == Init /\ at = {} /\ phases = <<>>
Next ==
  \/ (act.op = "new" /\ \E g \in {Along, Against} : lanes' = g.lanes /\ at' = g.at /\ lin' = 0 /\ frame' = [x |-> 0, y |-> 0, z |-> 0] /\ UNCHANGED phases
                         /\ act' = [op |-> "Set", lanes |-> g.lanes, at |-> g.at, lin |-> 0, frame |-> [x |-> 0, y |-> 0, z |-> 0], res |-> "ok"])
  \/ (act.op # "new" /\ phases = <<>> /\ \E p \in {Eastward, Westward, Cut, Broken, <<Eastward[2]>>} : SetRoute(p, TRUE))
  \/ (phases # <<>> /\ \/ Validate
                       \/ \E a, b \in Probes : Relate(a, b)
                       \/ \E l \in lanes : \E s \in {0, 1, l.len}, r \in {0, 1} : LET p == [lane |-> l.id, s |-> s, r |-> r, h |-> 0] IN
                            LaneRoute(p) \/ RouteAtRoad(p) \/ (\E k \in DOMAIN phases : PhaseAtRoad(k, p)) \/ Within(p, phases[1].ranges, 0)
                       \/ \E p \in Pts : RouteAt(p) \/ (\E k \in DOMAIN phases : PhaseAt(k, p))
                       \/ \E k \in 0..3, i \in 0..4 : Get(k, i))
Spec == MCInit /\ [][Next]_rvars
View == [net |-> [lanes |-> lanes, at |-> at], phases |-> phases, new |-> act.op = "new"]
Sound == phases # <<>> =>
  /\ Mirrored /\ Located(Pts)
  /\ \A l \in lanes : \A w \in LaneRoutes(P(l.id, 1)) : WellFormed(w)
Obs == [n |-> Cardinality(lanes)]
EmitState == IF act.op = "new" THEN PrintT(<<"S", ToJson(View), ToJson([n |-> Cardinality(Along.lanes)]), ToJson(TRUE)>>) ELSE PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(FALSE)>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
