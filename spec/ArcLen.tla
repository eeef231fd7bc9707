------------------------------- MODULE ArcLen -------------------------------
\* Arc length integrators: a query gives the value of the integral (or of its inverse), whatever was asked before.
\* The integrands are polynomials with integer primitives, so that the answers asked for are integers:
\*   arc:  f(p;k) = k1 + 2 k2 p + 3 p^2, integrated from lo;                        query p, answer the length;
\*   inv:  dp/ds = 1 / f(p;k), p(im) = lo: the inverse of the above from im;         query s, answer p;
\*   poly: dp/ds = k1 + 2 k2 s + 3 s^2, p(im) = lo;                                  query s, answer p.
\* The second half of the state is the design of the implementation (a state that is kept and continued from while the
\* context is the same and the query lies ahead of it); that its answers are the integral is checked (Right).
EXTENDS Integers, Sequences
CONSTANT ResetsOnFault \* of the design: a failed query leaves no state to continue from (with FALSE, the design before the fix, Right fails)
VARIABLES cfg, \* [kind, lo, im]
          fns, \* slot |-> <<>> or <<[x0, x1, k]>>: the functions that were made, which stay good
          alive, \* the integrator is: functions outlive it
          at, kept, \* design: the context and the point of the kept state, and its value
          act
vars == <<cfg, fns, alive, at, kept, act>>
Obs == [alive |-> alive]
Slots == {"a", "b"}
Poly(k, a, b) == k[1] * (b - a) + k[2] * (b * b - a * a) + (b * b * b - a * a * a)
\* The independent variable at the point n of the domain, and the answer there.  (Points are numbered from lo or im.)
Start(c) == IF c.kind = "arc" THEN c.lo ELSE c.im
X(c, k, n) == IF c.kind = "inv" THEN c.im + Poly(k, c.lo, c.lo + n) ELSE Start(c) + n
Y(c, k, n) == CASE c.kind = "arc" -> Poly(k, c.lo, c.lo + n)
                [] c.kind = "inv" -> c.lo + n
                [] c.kind = "poly" -> c.lo + Poly(k, c.im, c.im + n)
Init == cfg = [kind |-> "poly", lo |-> 0, im |-> 0] /\ fns = [s \in Slots |-> <<>>] /\ alive = FALSE
        /\ at = [k |-> <<0, 0>>, n |-> 0] /\ kept = 0 /\ act = [op |-> "Init", res |-> "ok"]
\* (how the integrator steps is a matter of accuracy only)
Open(c, how) ==
  /\ cfg' = c /\ fns' = [s \in Slots |-> <<>>] /\ alive' = TRUE
  /\ at' = [k |-> <<0, 0>>, n |-> 0] /\ kept' = Y(c, <<0, 0>>, 0)
  /\ act' = [op |-> "Open", kind |-> c.kind, lo |-> c.lo, im |-> c.im, how |-> how, res |-> "ok"]
Drop == alive /\ alive' = FALSE /\ UNCHANGED <<cfg, fns, at, kept>> /\ act' = [op |-> "Drop", res |-> "ok"]
Kept(k, n) == IF at.k = k /\ at.n <= n THEN kept + (Y(cfg, k, n) - Y(cfg, k, at.n)) ELSE Y(cfg, k, n)
Settle(k, n) == at' = [k |-> k, n |-> n] /\ kept' = Kept(k, n)
Stay == UNCHANGED <<at, kept>>
Evaluate(k, n) ==
  /\ alive
  /\ act' = [op |-> "Evaluate", k |-> k, x |-> IF n >= 0 THEN X(cfg, k, n) ELSE Start(cfg) + n,
             res |-> IF n >= 0 THEN Y(cfg, k, n) ELSE "throws"]
  /\ IF n >= 0 THEN Settle(k, n) ELSE Stay
  /\ UNCHANGED <<cfg, fns, alive>>
\* The function under the integral fails from the point m on: the query fails too (unless its answer is known already).
Spoil(k, n, m) == IF ResetsOnFault THEN at' = [k |-> k, n |-> 0] /\ kept' = Y(cfg, k, 0)
                  ELSE at' = [k |-> k, n |-> m] /\ kept' = Kept(k, m) + 1
EvaluateBroken(k, n, m) ==
  /\ alive
  /\ 0 < m /\ m <= n
  /\ act' = [op |-> "EvaluateBroken", k |-> k, x |-> X(cfg, k, n), fail |-> IF cfg.kind = "inv" THEN cfg.lo + m ELSE X(cfg, k, m),
             res |-> [any_of |-> <<"throws", Y(cfg, k, n)>>]]
  /\ IF at.k = k /\ m <= at.n /\ at.n = n THEN Stay ELSE Spoil(k, n, m)
  /\ UNCHANGED <<cfg, fns, alive>>
\* A function for the domain between the points a and b.
Make(s, k, a, b, tol) ==
  /\ alive
  /\ b # 0 /\ a < b
  /\ act' = [op |-> "Make", slot |-> s, k |-> k, x0 |-> IF a >= 0 THEN X(cfg, k, a) ELSE Start(cfg) + a,
             x1 |-> IF b >= 0 THEN X(cfg, k, b) ELSE Start(cfg) + b, tol |-> tol, res |-> IF a >= 0 THEN "ok" ELSE "throws"]
  /\ fns' = IF a >= 0 THEN [fns EXCEPT ![s] = <<[a |-> a, b |-> b, k |-> k, tol |-> tol]>>] ELSE fns
  /\ IF b > 0 THEN at' = [k |-> k, n |-> b] /\ kept' = Y(cfg, k, b) ELSE Stay
  /\ UNCHANGED <<cfg, alive>>
MakeBroken(s, k, a, b, m) ==
  /\ alive
  /\ 0 <= a /\ a < b /\ 0 < m /\ m <= b
  /\ act' = [op |-> "MakeBroken", slot |-> s, k |-> k, x0 |-> X(cfg, k, a), x1 |-> X(cfg, k, b), tol |-> 1,
             fail |-> IF cfg.kind = "inv" THEN cfg.lo + m ELSE X(cfg, k, m), res |-> "throws"]
  /\ Spoil(k, b, m)
  /\ UNCHANGED <<cfg, fns, alive>>
\* Beyond the ends by less than the tolerance: the end.
Sides == {"at", "nearbelow", "nearabove", "farbelow", "farabove"}
Call(s, n, side) ==
  /\ fns[s] # <<>>
  /\ LET f == fns[s][1]
         m == CASE side = "at" -> n [] side \in {"nearbelow", "farbelow"} -> f.a [] OTHER -> f.b
     IN  /\ f.a <= m /\ m <= f.b
         /\ act' = [op |-> "Call", slot |-> s, x |-> X(cfg, f.k, m), side |-> side, tol |-> f.tol,
                    res |-> IF side \in {"farbelow", "farabove"} THEN "throws" ELSE Y(cfg, f.k, m)]
  /\ Stay /\ UNCHANGED <<cfg, fns, alive>>
\* The design gives the integral.
Right == kept = Y(cfg, at.k, at.n)
=============================================================================
