----------------------------- MODULE Rotations -----------------------------
(* Rotations and linear algebra, exactly.  The current rotation is r = [m, d]: the integer matrix m divided by d.      *)
(* Quaternions and axes are integer vectors, angles are indices in Angles, whose sines and cosines are fifths.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES r, act
vars == <<r, act>>

Angles == <<[c |-> 5, s |-> 0], [c |-> 0, s |-> 5], [c |-> -5, s |-> 0], [c |-> 0, s |-> -5],
            [c |-> 4, s |-> 3], [c |-> 3, s |-> 4], [c |-> 4, s |-> -3], [c |-> -3, s |-> 4]>>
C(k) == Angles[k].c
S(k) == Angles[k].s
I3 == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
YesNo(x) == IF x THEN "yes" ELSE "no"

(* ------------------------------------------------------------------ matrices: sequences of rows *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
VDot(u, v) == SumTo([k \in 1..Len(u) |-> u[k] * v[k]], Len(u))
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
VPlus(u, v) == [k \in 1..Len(u) |-> u[k] + v[k]]
VTimes(a, u) == [k \in 1..Len(u) |-> a * u[k]]
Drop(u, k) == [j \in 1..(Len(u) - 1) |-> IF j < k THEN u[j] ELSE u[j + 1]]
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
T(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> m[j][i]]]
MTimes(x, m) == [i \in 1..Len(m) |-> VTimes(x, m[i])]
MPlus(m, n) == [i \in 1..Len(m) |-> VPlus(m[i], n[i])]
MV(m, v) == [i \in 1..Len(m) |-> VDot(m[i], v)]
MM(m, n) == LET t == T(n) IN [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> VDot(m[i], t[j])]]
Minor(m, i, j) == LET p == Drop(m, i) IN [k \in 1..(Len(m) - 1) |-> Drop(p[k], j)]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN 1 ELSE SumTo([j \in 1..Len(m) |-> m[1][j] * (IF j % 2 = 1 THEN 1 ELSE -1) * Det(Minor(m, 1, j))], Len(m))
Cof(m, i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(m, i, j))
CofM(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> Cof(m, i, j)]]
Trace(m) == SumTo([k \in 1..Len(m) |-> m[k][k]], Len(m))
Hat(a) == <<<<0, -a[3], a[2]>>, <<a[3], 0, -a[1]>>, <<-a[2], a[1], 0>>>>
Outer(a) == [i \in I3 |-> [j \in I3 |-> a[i] * a[j]]]

(* ------------------------------------------------------------------ rotations *)
QNorm2(q) == VDot(q, q)
QMat(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  <<<<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
    <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
    <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>>>>
QTimes(p, q) == <<p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4], p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                  p[1]*q[3] + p[3]*q[1] + p[4]*q[2] - p[2]*q[4], p[1]*q[4] + p[4]*q[1] + p[2]*q[3] - p[3]*q[2]>>
Rot(m, d) == [m |-> m, d |-> d]
OfQuat(q) == IF q = <<0, 0, 0, 0>> THEN Rot(Id(3), 1) ELSE Rot(QMat(q), QNorm2(q))
(* Turns about the coordinate axes, times five, and their derivatives with respect to the angle, times five. *)
RX(k) == <<<<5, 0, 0>>, <<0, C(k), -S(k)>>, <<0, S(k), C(k)>>>>
RY(k) == <<<<C(k), 0, S(k)>>, <<0, 5, 0>>, <<-S(k), 0, C(k)>>>>
RZ(k) == <<<<C(k), -S(k), 0>>, <<S(k), C(k), 0>>, <<0, 0, 5>>>>
DX(k) == <<<<0, 0, 0>>, <<0, -S(k), -C(k)>>, <<0, C(k), -S(k)>>>>
DY(k) == <<<<-S(k), 0, C(k)>>, <<0, 0, 0>>, <<-C(k), 0, -S(k)>>>>
DZ(k) == <<<<-S(k), -C(k), 0>>, <<C(k), -S(k), 0>>, <<0, 0, 0>>>>
OfRpy(o) == Rot(MM(RZ(o[3]), MM(RY(o[2]), RX(o[1]))), 125)
(* The derivative (times 125) of the matrix of roll, pitch and yaw o that change at rates v. *)
RpyDt(o, v) == MPlus(MTimes(v[1], MM(RZ(o[3]), MM(RY(o[2]), DX(o[1])))),
                     MPlus(MTimes(v[2], MM(RZ(o[3]), MM(DY(o[2]), RX(o[1])))), MTimes(v[3], MM(DZ(o[3]), MM(RY(o[2]), RX(o[1]))))))
(* A turn by an angle of cosine c/e and sine s/e about axis a of length n. *)
Turn(a, n, c, s, e) == Rot(MPlus(MTimes(c * n * n, Id(3)), MPlus(MTimes(e - c, Outer(a)), MTimes(s * n, Hat(a)))), e * n * n)
OfAxis(a, n, k) == IF n = 0 THEN Rot(Id(3), 1) ELSE Turn(a, n, C(k), S(k), 5)
RECURSIVE Power(_, _)   (* cosine and sine of n times angle k, times 5^n *)
Power(k, n) == IF n = 0 THEN [c |-> 1, s |-> 0, e |-> 1]
               ELSE LET p == Power(k, n - 1) IN [c |-> p.c * C(k) - p.s * S(k), s |-> p.c * S(k) + p.s * C(k), e |-> 5 * p.e]
(* The least rotation that takes a to the direction of b; n is the product of their lengths. *)
OfTwo(a, b, n) == LET w == Cross(a, b) h == n + VDot(a, b) IN
  Rot(MPlus(MTimes(n * h, Id(3)), MPlus(MTimes(h, Hat(w)), MM(Hat(w), Hat(w)))), n * h)
Then(x, y) == Rot(MM(x.m, y.m), x.d * y.d)    \* y in the frame turned by x
About(x) == Rot([i \in I3 |-> <<-x.m[i][1], -x.m[i][2], x.m[i][3]>>], x.d)
Inverse(x) == Rot(T(x.m), x.d)

(* ------------------------------------------------------------------ actions *)
VecOf(v) == {[k |-> k, v |-> v[k]] : k \in 1..Len(v)}
MatOf(m) == {[r |-> i, c |-> j, v |-> m[i][j]] : i \in 1..Len(m), j \in 1..Len(m)}
RotOf(x) == [d |-> x.d, m |-> MatOf(x.m)]
(* All the forms in which the rotation can be had give the same matrix; it is a proper rotation of unit quaternion, *)
(* and its angles are in their ranges.                                                                            *)
Forms == {"matrix", "apply", "rpy", "quat of matrix", "rpy of quat", "inverse", "conjugate", "negated", "scaled"}
Obs == [rot |-> RotOf(r), forms |-> Forms, unit |-> "yes", ranges |-> "yes"]

Init == r = Rot(Id(3), 1) /\ act = [op |-> "new"]
Become(x, a) == r' = x /\ act' = a @@ [res |-> "ok"]
SetQuat(q) == Become(OfQuat(q), [op |-> "SetQuat", q |-> q, d |-> OfQuat(q).d])
SetRpy(o) == Become(OfRpy(o), [op |-> "SetRpy", o |-> o, d |-> 125])
SetAxis(a, n, k) == Become(OfAxis(a, n, k), [op |-> "SetAxis", a |-> a, n |-> n, k |-> k, d |-> OfAxis(a, n, k).d])
SetTwo(a, b, n) == n + VDot(a, b) > 0 /\ Become(OfTwo(a, b, n), [op |-> "SetTwo", a |-> a, b |-> b, n |-> n, d |-> OfTwo(a, b, n).d])
(* Compositions by quaternion product, before or after the current rotation. *)
After(q) == Become(Then(r, OfQuat(q)), [op |-> "After", q |-> q, d |-> Then(r, OfQuat(q)).d])
Before(q) == Become(Then(OfQuat(q), r), [op |-> "Before", q |-> q, d |-> Then(OfQuat(q), r).d])
Reverse == Become(About(r), [op |-> "Reverse", d |-> r.d])
Invert == Become(Inverse(r), [op |-> "Invert", d |-> r.d])
Ask(a, x) == UNCHANGED r /\ act' = a @@ [res |-> x]
Apply(v) == Ask([op |-> "Apply", v |-> v, d |-> r.d], VecOf(MV(r.m, v)))
(* The cosines of the angles between the axes of two rotations, and of the angle of the rotation between them; the driver *)
(* takes the arc cosines.                                                                                            *)
Compare(q) == LET x == OfQuat(q) g == MM(T(r.m), x.m) IN
  Ask([op |-> "Compare", q |-> q, den |-> r.d * x.d, cos |-> <<g[1][1], g[2][2], g[3][3]>>, trace |-> Trace(g)], "ok")
(* A part k/n of the way to a rotation n times angle a further about an axis of length l. *)
Slerp(ax, l, a, n, k, neg) == LET p == Power(a, k) x == Then(r, Turn(ax, l, p.c, p.s, p.e)) IN
  Ask([op |-> "Slerp", ax |-> ax, l |-> l, a |-> a, n |-> n, k |-> k, neg |-> neg, d |-> x.d], MatOf(x.m))
(* From one vector to another, whatever they are. *)
Two(a, b) == Ask([op |-> "Two", a |-> a, b |-> b], [unit |-> "yes", aligned |-> "yes", least |-> "yes"])
Dt(o, v) == Ask([op |-> "Dt", o |-> o, v |-> v], MatOf(RpyDt(o, v)))
(* Equal up to k tenths of the smaller one's norm. *)
Approx(p, q, k) == LET d == VPlus(p, VTimes(-1, q)) x == 100 * QNorm2(d) m == IF QNorm2(p) < QNorm2(q) THEN QNorm2(p) ELSE QNorm2(q) IN
  [any_of |-> (IF x <= k * k * m THEN {"yes"} ELSE {}) \cup (IF x >= k * k * m THEN {"no"} ELSE {})]
Quats(p, q, k) == Ask([op |-> "Quats", p |-> p, q |-> q, k |-> k],
  [approx |-> Approx(p, q, k), prod |-> VecOf(QTimes(p, q)), dot |-> VDot(p, q), n2 |-> QNorm2(p), conj |-> VecOf(<<p[1], -p[2], -p[3], -p[4]>>), eq |-> YesNo(p = q),
   inv |-> VecOf(<<p[1], -p[2], -p[3], -p[4]>>)])
(* Matrices and vectors of any size; [inv] is the inverse times the determinant. *)
Mats(m, n, v) == Ask([op |-> "Mats", m |-> m, n |-> n, v |-> v],
  [det |-> Det(m), sum |-> MatOf(MPlus(m, n)), diff |-> MatOf(MPlus(m, MTimes(-1, n))), prod |-> MatOf(MM(m, n)), t |-> MatOf(T(m)), mv |-> VecOf(MV(m, v)),
   cof |-> MatOf(CofM(m)), adj |-> MatOf(T(CofM(m))), sing |-> YesNo(Det(m) = 0), scaled |-> MatOf(MTimes(3, m)), eq |-> YesNo(m = n),
   inv |-> IF Det(m) = 0 THEN {"throws"} ELSE MatOf(T(CofM(m)))])
(* Rows, columns, cells and minors, counted from 0; out of range is refused. *)
Cell(m, i, j) == LET n == Len(m) ok == i < n /\ j < n IN Ask([op |-> "Cell", m |-> m, i |-> i, j |-> j],
  [row |-> IF i < n THEN VecOf(m[i + 1]) ELSE {"throws"}, col |-> IF j < n THEN VecOf(T(m)[j + 1]) ELSE {"throws"},
   minor |-> IF ok THEN (IF n = 1 THEN {} ELSE MatOf(Minor(m, i + 1, j + 1))) ELSE {"throws"}, cof |-> IF ok THEN [v |-> Cof(m, i + 1, j + 1)] ELSE [v |-> "throws"],
   at |-> IF ok THEN [v |-> m[i + 1][j + 1]] ELSE [v |-> "throws"]])
Vecs(u, v) == Ask([op |-> "Vecs", u |-> u, v |-> v],
  [dot |-> VDot(u, v), n2 |-> VDot(u, u), sum |-> VecOf(VPlus(u, v)), diff |-> VecOf(VPlus(u, VTimes(-1, v))), neg |-> VecOf(VTimes(-2, u)), eq |-> YesNo(u = v),
   cross |-> IF Len(u) = 3 THEN VecOf(Cross(u, v)) ELSE {}, dist2 |-> VDot(VPlus(u, VTimes(-1, v)), VPlus(u, VTimes(-1, v))), str |-> VecOf(u),
   unit |-> IF VDot(u, u) = 0 THEN {} ELSE VecOf(u)])
(* The text of a vector in braces; toks are its components, numbers or words. *)
Parse(n, text, v) == Ask([op |-> "Parse", n |-> n, text |-> text, v |-> v], IF Len(v) = n THEN VecOf(v) ELSE {"throws"})
(* Numbers held within limits, and bounds around zero. *)
Saturate(x, lo, hi) == Ask([op |-> "Saturate", x |-> x, lo |-> lo, hi |-> hi],
  IF lo > hi THEN [v |-> "throws"] ELSE [v |-> IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x])
(* Numbers up to tol beyond the limits are brought eps inside of them.  eps is in eighths of the range if relative. *)
Validate(x, lo, hi, tol, eps, rel) == LET e == IF rel THEN ((hi - lo) * eps) \div 8 ELSE eps IN
  /\ rel => ((hi - lo) * eps) % 8 = 0
  /\ lo + e > hi \/ lo + 2 * e <= hi    \* otherwise nothing is left inside: not specified
  /\ Ask([op |-> "Validate", x |-> x, lo |-> lo, hi |-> hi, tol |-> tol, eps |-> eps, rel |-> rel],
         IF tol <= 0 \/ e < 0 \/ e > tol \/ lo + e > hi \/ x < lo - tol \/ x > hi + tol THEN [v |-> "throws"]
         ELSE [v |-> IF x < lo + e THEN lo + e ELSE IF x > hi - e THEN hi - e ELSE x])
Bounds(lo, hi) == Ask([op |-> "Bounds", lo |-> lo, hi |-> hi],
  [make |-> IF lo <= 0 /\ hi >= 0 THEN {[k |-> 1, v |-> lo], [k |-> 2, v |-> hi]} ELSE {"throws"},
   set |-> {[k |-> 1, v |-> IF lo <= 0 THEN lo ELSE 0], [k |-> 2, v |-> IF hi >= 0 THEN hi ELSE 0]}])

----------------------------------------------------------------------------
(* Every way of making a rotation makes a proper rotation. *)
Proper == MM(r.m, T(r.m)) = MTimes(r.d * r.d, Id(3)) /\ Cross(r.m[1], r.m[2]) = VTimes(r.d, r.m[3])
=============================================================================
