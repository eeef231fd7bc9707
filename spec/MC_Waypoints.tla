---------------------------- MODULE MC_Waypoints ----------------------------
(* Three lanes: two of a segment in opposite directions (b returns along a), and c, which goes on from a after a turn.  *)
EXTENDS Waypoints, Json
L(id, seg, x, y, q, len) == [id |-> id, seg |-> seg, x |-> x, y |-> y, z |-> 0, q |-> q, len |-> len, rmin |-> -1, rmax |-> 1,
                             smin |-> -1, smax |-> 3, hmin |-> 0, hmax |-> 2, wide |-> 1, tall |-> 1]
Roads == {L("a", "s1", 0, 0, 0, 6), [L("b", "s2", 6, 2, 2, 6) EXCEPT !.smin = -2, !.smax = 1], L("c", "s3", 6, 0, 1, 4)}
Cfg == [u |-> 1, lanes |-> Roads, lin |-> 1, frame |-> [x |-> 0, y |-> 0, z |-> 0]]
ASSUME PrintT(<<"C", ToJson(Cfg)>>)
Range(l, a, b) == [lane |-> l, s0 |-> a, s1 |-> b]
Ends == {0, 2, 3, 6}
One == {<<Range(l, a, b)>> : l \in {"a", "b"}, a \in Ends, b \in Ends}
Two == {<<Range("a", a, 6), Range("c", 0, b)>> : a \in {0, 1, 6}, b \in {0, 1, 4}}
       \cup {<<Range("c", a, 0), Range("a", 6, b)>> : a \in {0, 3, 4}, b \in {0, 5}}
       \cup {<<Range("a", 0, a), Range("b", 6 - a, b)>> : a \in {2, 3}, b \in {0, 2, 3, 6}}
       \cup {<<Range("a", 0, 3), Range("zz", 0, 3)>>, <<Range("zz", 0, 0)>>}
Three == {<<Range("c", 4, 0), Range("a", 6, a), Range("a", a, 0)>> : a \in {1, 3, 6}}
         \cup {<<Range("a", 0, a), Range("a", a, 6), Range("c", 0, 3)>> : a \in {1, 4}}
Routes == One \cup Two \cup Three
Rates == {-1, 0, 1, 2, 3, 4, 5, 100}
Start == lanes = Roads /\ lin = 1 /\ frame = [x |-> 0, y |-> 0, z |-> 0] /\ act = [op |-> "new"]
Roam == \E n \in {0, 2}, f \in {[x |-> 0, y |-> 0, z |-> 0], [x |-> 3, y |-> -2, z |-> 1]} :
  /\ lin' = n /\ frame' = f /\ lanes' = lanes /\ act' = [op |-> "Set", lanes |-> lanes, lin |-> n, frame |-> f, res |-> "ok"]
Next ==
  \/ Roam
  \/ \E t \in Routes, k \in Rates : Sample(t, k)
  \/ \E i \in Names, s \in -3 .. 9, r \in -6 .. 7 : Holds(i, s, r, 0)
  \/ \E i \in Names, s \in {0, 5}, r \in {-1, 1}, h \in -3 .. 6 : Holds(i, s, r, h)
  \/ \E i \in Names \cup {"zz"} : HasLane(i)
  \/ \E old \in BOOLEAN, g \in {{}} \cup {{x} : x \in Parts(TRUE)} : Network(old, g)
Spec == Start /\ [][Next]_vars
Sound == \A t \in Routes, k \in Rates : WalkAgrees(t, k) /\ Covered(t, k)
View == <<lanes, lin, frame>>
Obs == [n |-> Cardinality(lanes)]
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(act.op = "new")>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
