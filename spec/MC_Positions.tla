---------------------------- MODULE MC_Positions ----------------------------
EXTENDS Positions, Json
L(id, seg, x, y, z, q, len, w) == [id |-> id, seg |-> seg, x |-> x, y |-> y, z |-> z, q |-> q, len |-> len, rmin |-> -w, rmax |-> w,
                                   smin |-> -w, smax |-> w, hmin |-> 0, hmax |-> 3]
(* Two neighbours, a crossing and a bridge above; and two lanes only. *)
Wide == {[L("a", "s", 0, 0, 0, 0, 3, 1) EXCEPT !.smax = 3], [L("b", "s", 0, 2, 0, 0, 3, 1) EXCEPT !.smin = -3],
         L("c", "t", 2, -1, 0, 1, 4, 1), L("d", "u", 3, 0, 2, 2, 3, 1)}
Geometries == {[lanes |-> Wide, frame |-> [x |-> 0, y |-> 0, z |-> 0]],
               [lanes |-> {L("a", "s", 1, 1, 0, 3, 2, 1), L("d", "u", 1, 0, 1, 1, 1, 2)}, frame |-> [x |-> 1, y |-> -1, z |-> 2]],
               [lanes |-> {}, frame |-> [x |-> 0, y |-> 0, z |-> 0]]}
Pts == {[x |-> x, y |-> y, z |-> z] : x \in -1..4, y \in -2..4, z \in {-1, 0, 1, 2, 3, 5}}
Geo == [lanes |-> lanes, frame |-> frame]
Next == \/ (act.op = "new" /\ \E g \in Geometries : lanes' = g.lanes /\ frame' = g.frame /\ lin' = 1 /\ act' = [op |-> "Set", lanes |-> g.lanes, frame |-> g.frame, res |-> "ok"])
        \/ (act.op # "new" /\ \/ \E p \in Pts : ToRoad(p)
                              \/ \E p \in {p \in Pts : p.z <= 2} : \E h \in {l.id : l \in lanes} \cup {"null"} : (p.x = p.y \/ p.z = 0) /\ ToRoadHint(p, h)
                              \/ \E p \in Pts : \E r \in {-2, -1, 0, 1, 2, 5} : Find(p, r)
                              \/ \E p \in {p \in Pts : p.z = 1} : Filter(p, {"a", "c", "d"}, 4)
                              \/ \E l \in lanes : \E p \in {p \in Pts : p.z <= 1} : Lane(l.id, p)
                              \/ \E l \in lanes : \E s \in {0, 1}, r \in {-1, 0, 1}, h \in {0, 2} : ToInertial(l.id, s, r, h))
MCInit == Init
Spec == MCInit /\ [][Next]_vars
View == [g |-> Geo, new |-> act.op = "new"]
Guaranteed == Guarantees(Pts)
ASSUME PrintT(<<"C", ToJson([u |-> 1, step |-> 1, lanes |-> {}, frame |-> [x |-> 0, y |-> 0, z |-> 0], lin |-> 1])>>)
Obs == [n |-> Cardinality(lanes)]
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(act.op = "new")>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
