------------------------------ MODULE MC_KdTree ------------------------------
(* Every set of N points of a small grid, every tree over it, every query. *)
EXTENDS KdTree
CONSTANTS N, W, H
Grid == {<<x, y>> : x \in 0..W, y \in 0..H}
Qs == {<<x, y>> : x \in -1..(W + 1), y \in -1..(H + 1)}
Bxs == {[lo |-> <<x, y>>, hi |-> <<u, v>>, tol |-> t] : x \in 0..W, y \in 0..H, u \in 0..W, v \in 0..H, t \in {0, 1}}
Bs == {b \in Bxs : ValidBox(b)} \cup {[lo |-> <<-Inf, 0>>, hi |-> <<1, Inf>>, tol |-> 0]}
Le(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
MCInit == pts = <<>> /\ act = [op |-> "new"]
(* the order of equal sets of points does not matter: the trees are those of the set *)
Next == Len(pts) < N /\ \E p \in Grid : (pts # <<>> => Le(pts[Len(pts)], p)) /\ pts' = Append(pts, p) /\ act' = [op |-> "Add"]
Spec == MCInit /\ [][Next]_vars
Agrees == pts # <<>> => TreeAgrees(Qs, {0, 1, 2}, Bs)
=============================================================================
