------------------------------- MODULE MC_Mesh -------------------------------
(* Every piece of a flat 3 x 3 grid, and every terrain of a 2 x 2 grid over heights 0 and 1.                             *)
EXTENDS Mesh, Json
ASSUME PrintT(<<"C", ToJson([u |-> 1, axis |-> 0])>>)
SetToSeq(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : 10 * y.j + y.i <= 10 * z.j + z.i IN <<x>> \o f(T \ {x}) IN f(S)
Grid(n, k) == {[i |-> i, j |-> j, k |-> k] : i \in 0 .. n - 1, j \in 0 .. n - 1}
Level(n) == [j \in 1 .. n + 1 |-> [i \in 1 .. n + 1 |-> 0]]
Flats == {[h |-> Level(3), cells |-> SetToSeq(S)] : S \in SUBSET Grid(3, 0) \ {{}}}
Terrains == {[h |-> f, cells |-> SetToSeq(Grid(2, k))] : f \in [1..3 -> [1..3 -> {0, 1}]], k \in 0..2}
Plateau == [j \in 1..4 |-> [i \in 1..4 |-> IF i \in {2, 3} /\ j \in {2, 3} THEN 1 ELSE 0]]
High == [j \in 1..6 |-> [i \in 1..6 |-> IF i \in {3, 4} /\ j \in {3, 4} THEN 1 ELSE 0]]
Others == {[h |-> Plateau, cells |-> SetToSeq(Grid(3, k))] : k \in 0..2} \cup {[h |-> High, cells |-> SetToSeq(Grid(5, k))] : k \in 0..2}
Meshes == Flats \cup Terrains \cup Others
VARIABLE group
Part(m) == (Len(m.cells) + m.cells[1].i + 2 * m.h[1][1] + 4 * m.h[2][2] + 8 * m.h[2][1]) % 16
Next ==
  \/ /\ group = -1 /\ \E g \in 0..15 : group' = g /\ act' = [op |-> "Idle", res |-> "ok"]
  \/ /\ group >= 0 /\ UNCHANGED group
     /\ \E m \in {x \in Meshes : Part(x) = group} : Assert(Sound(m.h, m.cells), m) /\ Simplify(m.h, m.cells, 0)
MCInit == Init /\ group = -1
Spec == MCInit /\ [][Next]_<<act, group>>
View == group
Obs == 0
EmitState == PrintT(<<"S", ToJson(View), ToJson(Obs), ToJson(act.op = "new")>>)
Emit == PrintT(<<"T", ToJson(View), ToJson(act'), ToJson(View')>>)
=============================================================================
