------------------------------ MODULE CheckOps ------------------------------
(* Checkpointed integration: the times of the pieces and what an explicit Euler solver with unit steps computes.
   One tick of time is U units, so that all checkpoint times are integers. *)
EXTENDS Integers, Sequences, FiniteSets
U == 60
Sgn(t) == IF t[Len(t)] >= t[1] THEN 1 ELSE -1
\* checkpoint times (units) for requested times t (ticks), end points included
ByNumber(t, k) == [j \in 1..(k + 2) |-> U * t[1] + ((j - 1) * U * (t[Len(t)] - t[1])) \div (k + 1)]
ByInterval(t, d) == LET L == U * Sgn(t) * (t[Len(t)] - t[1])
                        n == (L + d - 1) \div d
                    IN [j \in 1..(n + 1) |-> IF j = n + 1 THEN U * t[Len(t)] ELSE U * t[1] + Sgn(t) * (j - 1) * d]
Cps(t, by, v) == IF by = "number" THEN ByNumber(t, v) ELSE ByInterval(t, v)
\* every checkpoint lies on a tick, so that unit steps fit the pieces
Fits(t, by, v) == \A j \in DOMAIN Cps(t, by, v) : Cps(t, by, v)[j] % U = 0

\* x' = theta * (B x + d) + t * c: Euler from t[1]; the state x and its sensitivity s with respect to theta, after n steps
Row(B, i, x) == B[i][1] * x[1] + B[i][2] * x[2]
RECURSIVE Euler(_, _, _, _, _, _, _, _)
Euler(n, t0, sg, x0, th, B, c, d) ==
  IF n = 0 THEN [x |-> x0, s |-> <<0, 0>>, j |-> << <<1, 0>>, <<0, 1>> >>]
  ELSE LET p == Euler(n - 1, t0, sg, x0, th, B, c, d)
           tm == t0 + sg * (n - 1)
       IN [x |-> [i \in 1..2 |-> p.x[i] + sg * (th * (Row(B, i, p.x) + d[i]) + tm * c[i])],
           s |-> [i \in 1..2 |-> p.s[i] + sg * (Row(B, i, p.x) + d[i] + th * Row(B, i, p.s))],
           j |-> [k \in 1..2 |-> [i \in 1..2 |-> p.j[k][i] + sg * th * Row(B, i, p.j[k])]]]
At(t, i, x0, th, B, c, d) == Euler(Sgn(t) * (t[i] - t[1]), t[1], Sgn(t), x0, th, B, c, d)
RECURSIVE SumI(_, _)
SumI(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumI(F, n - 1)
\* loss = sum_i w[i] . x(t[i]); derivative with respect to theta and to x0
GradTheta(t, w, x0, th, B, c, d) == SumI(LAMBDA i : w[i][1] * At(t, i, x0, th, B, c, d).s[1] + w[i][2] * At(t, i, x0, th, B, c, d).s[2], Len(t))
GradX0(t, w, x0, th, B, c, d, k) == SumI(LAMBDA i : w[i][1] * At(t, i, x0, th, B, c, d).j[k][1] + w[i][2] * At(t, i, x0, th, B, c, d).j[k][2], Len(t))
=============================================================================
