-------------------------------- MODULE Mesh --------------------------------
(* Simplification of meshes.  A mesh is a piece of a terrain: unit cells of a grid, whole or split along a diagonal,     *)
(* over integer heights at the grid's points.  What a face covers is told by wedges: the four quarters of every cell.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE act
Init == act = [op |-> "new"]

(* h[j + 1][i + 1] is the height at (i, j); a cell is [i, j, k]: k = 0 whole, 1 and 2 split along either diagonal. *)
Corner(c, n) == CASE n = 1 -> <<c.i, c.j>> [] n = 2 -> <<c.i + 1, c.j>> [] n = 3 -> <<c.i + 1, c.j + 1>> [] OTHER -> <<c.i, c.j + 1>>
Wedge(c, w) == [i |-> c.i, j |-> c.j, w |-> w]
FacesOf(c) ==
  CASE c.k = 0 -> <<[v |-> <<Corner(c, 1), Corner(c, 2), Corner(c, 3), Corner(c, 4)>>, w |-> {Wedge(c, x) : x \in {"s", "e", "n", "w"}}]>>
    [] c.k = 1 -> <<[v |-> <<Corner(c, 1), Corner(c, 2), Corner(c, 3)>>, w |-> {Wedge(c, x) : x \in {"s", "e"}}],
                    [v |-> <<Corner(c, 3), Corner(c, 4), Corner(c, 1)>>, w |-> {Wedge(c, x) : x \in {"n", "w"}}]>>
    [] OTHER   -> <<[v |-> <<Corner(c, 4), Corner(c, 1), Corner(c, 2)>>, w |-> {Wedge(c, x) : x \in {"s", "w"}}],
                    [v |-> <<Corner(c, 2), Corner(c, 3), Corner(c, 4)>>, w |-> {Wedge(c, x) : x \in {"n", "e"}}]>>
RECURSIVE Faces(_)
Faces(cells) == IF cells = <<>> THEN <<>> ELSE FacesOf(Head(cells)) \o Faces(Tail(cells))

Z(h, p) == h[p[2] + 1][p[1] + 1]
(* Three of a face's points, which are unit steps apart along both axes, give its plane z = gx x + gy y + c. *)
PlaneOf(h, f) ==
  LET p == f.v[1] q == f.v[2] r == f.v[3]   \* counterclockwise, twice the area one
      dx1 == q[1] - p[1] dy1 == q[2] - p[2] dz1 == Z(h, q) - Z(h, p)
      dx2 == r[1] - q[1] dy2 == r[2] - q[2] dz2 == Z(h, r) - Z(h, q)
      gx == dz1 * dy2 - dy1 * dz2
      gy == dx1 * dz2 - dz1 * dx2 IN
  [gx |-> gx, gy |-> gy, c |-> Z(h, p) - gx * p[1] - gy * p[2]]
Lies(h, f, pl) == \A n \in DOMAIN f.v : Z(h, f.v[n]) = pl.gx * f.v[n][1] + pl.gy * f.v[n][2] + pl.c
Flat(h, f) == Lies(h, f, PlaneOf(h, f))

After(f, n) == IF n = Len(f.v) THEN 1 ELSE n + 1
EdgeOf(f, n) == <<f.v[n], f.v[After(f, n)]>>
Rev(e) == <<e[2], e[1]>>
(* The face edges across those of each face, as <<face, edge>>, or <<0, 0>>. *)
Table(F) ==
  LET own == UNION {{<<EdgeOf(F[k], n), <<k, n>> >> : n \in DOMAIN F[k].v} : k \in DOMAIN F}
      at == [e \in {x[1] : x \in own} |-> (CHOOSE x \in own : x[1] = e)[2]] IN
  [k \in DOMAIN F |-> [n \in DOMAIN F[k].v |-> LET e == Rev(EdgeOf(F[k], n)) IN IF e \in DOMAIN at THEN at[e] ELSE <<0, 0>>]]
Keys(h, F) == [k \in DOMAIN F |-> IF Flat(h, F[k]) THEN PlaneOf(h, F[k]) ELSE [gx |-> 0, gy |-> 0, c |-> 0, alone |-> k]]
RECURSIVE Close(_, _, _, _)
Close(A, pl, S, new) ==
  LET T == {x \in UNION {{A[k][n][1] : n \in DOMAIN A[k]} : k \in new} \ (S \cup {0}) : \E k \in new : pl[x] = pl[k]} IN
  IF T = {} THEN S ELSE Close(A, pl, S \cup T, T)
(* The pieces to merge: faces of one plane, connected through their edges. *)
Pieces(h, F, A) == LET pl == Keys(h, F) IN {Close(A, pl, {k}, {k}) : k \in DOMAIN F}
(* The outline of a piece: its outer edges, each followed by the next one around their common point inside the piece. *)
Outer(A, P) == UNION {{<<k, n>> : n \in {x \in DOMAIN A[k] : A[k][x][1] \notin P}} : k \in P}
Step(A, k, n) == IF n = Len(A[k]) THEN 1 ELSE n + 1
RECURSIVE Turn(_, _, _, _)
Turn(A, P, k, n) == LET o == A[k][n] IN IF o[1] \in P THEN Turn(A, P, o[1], Step(A, o[1], o[2])) ELSE <<k, n>>
RECURSIVE Outline(_, _, _, _)
Outline(A, P, first, done) ==
  LET e == done[Len(done)]
      x == Turn(A, P, e[1], Step(A, e[1], e[2])) IN
  IF x = first THEN done ELSE Outline(A, P, first, Append(done, x))
OutlineOf(A, P) == LET e == CHOOSE x \in Outer(A, P) : TRUE IN Outline(A, P, e, <<e>>)
(* A piece with holes has more than one outline. *)
Solid(A, P, o) == Len(o) = Cardinality(Outer(A, P))
Dir(F, e) == LET p == EdgeOf(F[e[1]], e[2]) IN <<p[2][1] - p[1][1], p[2][2] - p[1][2]>>
Corners(F, o) == Cardinality({k \in DOMAIN o : Dir(F, o[k]) # Dir(F, o[IF k = Len(o) THEN 1 ELSE k + 1])})
Covers(F, P) == UNION {F[k].w : k \in P}
Max(a, b) == IF a > b THEN a ELSE b
(* A piece becomes one face with few more vertices than its corners; what cannot be one face stays as it was. *)
Simplified(h, cells) ==
  LET F == Faces(cells)
      A == Table(F)
      Ps == {[p |-> P, o |-> OutlineOf(A, P)] : P \in Pieces(h, F, A)}
      one == {P \in Ps : Solid(A, P.p, P.o)} IN
  [cover |-> "once",
   faces |-> {[w |-> Covers(F, P.p), nv |-> [in |-> <<3, Max(4, 2 * Corners(F, P.o) + 2)>>]] : P \in one}
             \cup {[w |-> F[k].w, nv |-> [in |-> <<3, 4>>]] : k \in UNION {P.p : P \in Ps \ one}}]
Simplify(h, cells, rot) == act' = [op |-> "Simplify", h |-> h, cells |-> cells, rot |-> rot, res |-> Simplified(h, cells)]

(* Twice the enclosed area. *)
RECURSIVE Shoelace(_, _, _)
Shoelace(F, o, k) ==
  IF k = 0 THEN 0 ELSE LET e == EdgeOf(F[o[k][1]], o[k][2]) IN e[1][1] * e[2][2] - e[1][2] * e[2][1] + Shoelace(F, o, k - 1)
(* The outline of a solid piece encloses its area, and the pieces divide the mesh. *)
Sound(h, cells) ==
  LET F == Faces(cells)
      A == Table(F)
      Ps == Pieces(h, F, A) IN
  /\ \A P \in Ps : LET o == OutlineOf(A, P) IN Solid(A, P, o) => 2 * Shoelace(F, o, Len(o)) = Cardinality(Covers(F, P))
  /\ UNION Ps = DOMAIN F
  /\ \A P \in Ps, Q \in Ps : P # Q => P \cap Q = {}
=============================================================================
