------------------------------- MODULE SymOps -------------------------------
(* Symmetries of the flow of a shooting model and the energy it conserves. A symmetry g takes the rows of states and costates
   from g.rows (a rearrangement, a repetition, or a mirrored picture), takes feature c of key k from feature g.cols[k][c][1]
   with sign g.cols[k][c][2], multiplies the costates by g.num (over g.den) and divides the time by the same number; it multiplies
   all regularisation weights and the time by g.wf. *)
EXTENDS ShootOps
RowsCols(rows, cols, x) == Mat(Len(rows), Len(cols), LAMBDA r, c : cols[c][2] * x[rows[r]][cols[c][1]])
Act(g, d) == TLCEval([k \in DOMAIN d |-> RowsCols(g.rows, g.cols[k], d[k])])
ActData(g, d) == TLCEval([k \in DOMAIN d |-> RowsCols(g.datarows, g.cols[k], d[k])])
Times(d, a) == TLCEval([k \in DOMAIN d |-> Mat(Rows(d[k]), Cols(d[k]), LAMBDA r, c : a * d[k][r][c])])

\* ---- rate of change of twice the energy of the parameters (exact setting, S = 1), from the rates of states and costates
RateOfArg(e, q, dq, t) == Inputs(e.g, IF t.a = "none" THEN dq[t.i] ELSE Mat(Rows(q[t.i]), Cols(q[t.i]), LAMBDA r, c : DSigma(e.nl, q[t.i][r][c], 1) * dq[t.i][r][c]))
RateOfTerm(e, th, q, p, dq, dp, t) ==
  LET x == Arg(e, q, t)
      dx == RateOfArg(e, q, dq, t)
      W == th[t.l].weight
      po == p[t.o]
      dpo == dp[t.o]
      dW(o, j) == Sum([r \in 1..Rows(x) |-> po[r][o] * dx[r][j] + dpo[r][o] * x[r][j]])      \* the weight cancels against the one of the energy
      db(o) == Sum([r \in 1..Rows(x) |-> dpo[r][o]])
  IN Sum([o \in DOMAIN W |-> Sum([j \in DOMAIN W[o] |-> W[o][j] * dW(o, j)]) + (IF t.b THEN th[t.l].bias[o] * db(o) ELSE 0)])
EnergyRate(e, q, p) ==
  LET th == Params(e, q, p)
      dq == RhsAll(e, th, q)
      dp == CoRhsAll(e, th, q, p)
  IN Sum([i \in DOMAIN Terms(e.model) |-> RateOfTerm(e, th, q, p, dq, dp, Terms(e.model)[i])])
Damped(m) == Models[m].damp # << >>
Odd(nl) == nl \in {"identity", "tanh"}
=============================================================================
