------------------------------ MODULE ShootOps ------------------------------
(* The shooting models. A model is a sequence of terms  d/dt o = ... + layer(act(i)) + ...  and of damping terms. States,
   costates and data are matrices: one row per particle (and position), one column per feature or channel. Values are
   fixed point numbers with S units per 1, parameters and derivatives have S*Z units per 1 (S = 1 with integer states and a
   suitable Z gives exact arithmetic). Weights are rationals. *)
EXTENDS Nonlin, FiniteSets

T(o, l, i, a, b) == [o |-> o, l |-> l, i |-> i, a |-> a, b |-> b]
Plain(keys, terms) == [keys |-> keys, terms |-> terms, damp |-> << >>]
Q12 == <<"q1", "q2">>
UpDownTerms == <<T("q1", "l1", "q2", "nl", TRUE), T("q2", "l2", "q1", "none", TRUE)>>
Models ==
  [Simple |-> Plain(<<"q1">>, <<T("q1", "l1", "q1", "nl", TRUE)>>),
   Debug |-> Plain(Q12, <<T("q1", "l1", "q1", "nl", TRUE), T("q2", "l2", "q2", "nl", TRUE)>>),
   SecondOrder |-> Plain(Q12, UpDownTerms),
   UpDown |-> Plain(Q12, UpDownTerms),
   Transport |-> Plain(Q12, UpDownTerms),
   Universal |-> Plain(Q12, Append(UpDownTerms, T("q2", "l3", "q2", "nl", FALSE))),
   Periodic |-> Plain(Q12, Append(UpDownTerms, T("q1", "l3", "q1", "none", FALSE))),
   Dampened |-> [Plain(Q12, UpDownTerms) EXCEPT !.damp = <<[o |-> "q2", num |-> -1, den |-> 2]>>],   \* dot q2 = ... - (-1/2) q2
   Symmetrized |-> Plain(<<"q1", "q2", "q3">>, <<T("q1", "l1", "q2", "nl", TRUE), T("q2", "l2", "q3", "nl", TRUE), T("q3", "l3", "q1", "none", TRUE)>>),
   General |-> Plain(Q12, <<T("q1", "l11", "q2", "nl", TRUE), T("q1", "l12", "q1", "none", FALSE), T("q1", "l13", "q1", "nl", FALSE), T("q1", "l14", "q2", "none", FALSE),
                            T("q2", "l21", "q1", "none", TRUE), T("q2", "l22", "q2", "none", FALSE), T("q2", "l23", "q2", "nl", FALSE), T("q2", "l24", "q1", "nl", FALSE)>>),
   Conv |-> Plain(Q12, <<T("q1", "conv1", "q2", "nl", TRUE), T("q2", "conv2", "q1", "none", TRUE)>>),
   UpDownConv |-> Plain(Q12, <<T("q1", "conv1", "q2", "nl", TRUE), T("q2", "conv2", "q1", "none", TRUE)>>),
   ConvBatch |-> Plain(Q12, <<T("q1", "conv1", "q2", "nl", TRUE), T("q2", "conv2", "q1", "gn", TRUE)>>)]
Keys(m) == Models[m].keys
Terms(m) == Models[m].terms
LayersOf(m) == {Terms(m)[i].l : i \in DOMAIN Terms(m)}
TermOf(m, l) == Terms(m)[CHOOSE i \in DOMAIN Terms(m) : Terms(m)[i].l = l]
SeqSet(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Sum(s) == SumTo(s, Len(s))
RDiv(a, b) == IF b = 1 THEN a ELSE (a + b \div 2) \div b
Rows(x) == Len(x)
Cols(x) == Len(x[1])
Mat(r, c, F(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> F(i, j)])])

\* nonlinearity and derivative of a value with S units per 1 (exact for S = 1; otherwise a multiple of S/8)
Sigma(nl, x, S) == IF nl = "identity" THEN x ELSE IF nl = "relu" THEN (IF x > 0 THEN x ELSE 0) ELSE RDiv(Val(nl, (x * 8) \div S) * S, NT)
DSigma(nl, x, S) == IF nl = "identity" THEN S ELSE IF nl = "relu" THEN (IF x > 0 THEN S ELSE 0) ELSE RDiv(Der(nl, (x * 8) \div S) * S, NT)

\* geometry g: [kind |-> "lin"] or [kind |-> "conv", h, w, k, pad]; row of (n, y, x) = ((n*h)+y)*w + x + 1
Shift(g, r, dy, dx) ==   \* row of the position moved by (dy, dx), 0 if outside
  LET z == r - 1
      x == (z % g.w) + dx
      y == ((z \div g.w) % g.h) + dy
      n == z \div (g.w * g.h)
  IN IF x < 0 \/ x >= g.w \/ y < 0 \/ y >= g.h THEN 0 ELSE (n * g.h + y) * g.w + x + 1
\* what the layer's matrix is applied to: the row itself, or the patch around the position
Inputs(g, x) ==
  IF g.kind = "lin" THEN x
  ELSE Mat(Rows(x), Cols(x) * g.k * g.k, LAMBDA r, j :
         LET c == (j - 1) \div (g.k * g.k)
             a == ((j - 1) \div g.k) % g.k
             b == (j - 1) % g.k
             s == Shift(g, r, a - g.pad, b - g.pad)
         IN IF s = 0 THEN 0 ELSE x[s][c + 1])
\* adjoint of Inputs
Outputs(g, y, cols) ==
  IF g.kind = "lin" THEN y
  ELSE Mat(Rows(y), cols, LAMBDA r, c :
         Sum(TLCEval([m \in 1..(g.k * g.k) |->
           LET a == (m - 1) \div g.k
               b == (m - 1) % g.k
               s == Shift(g, r, g.pad - a, g.pad - b)
           IN IF s = 0 THEN 0 ELSE y[s][(c - 1) * g.k * g.k + m]])))

\* e: [S, Z, N, nl, g, gn] common numbers; q: key -> matrix; the argument of a layer
GroupNormIn(e, q, key) == e.gn[key].xh
ArgOf(e, q, t) == LET x == q[t.i] IN
  CASE t.a = "none" -> x
    [] t.a = "nl" -> Mat(Rows(x), Cols(x), LAMBDA r, c : Sigma(e.nl, x[r][c], e.S))
    [] t.a = "gn" -> GroupNormIn(e, q, t.i)
Arg(e, q, t) == Inputs(e.g, ArgOf(e, q, t))

\* ---- parameters: derivative of the particle-averaged pairing, divided by the weight
WeightOf(e, l, n) == e.wts[l][n]      \* <<numerator, denominator>>
ParWeight(e, q, p, t) ==
  LET x == Arg(e, q, t)
      po == p[t.o]
      w == WeightOf(e, t.l, "weight")
  IN Mat(Cols(po), Cols(x), LAMBDA o, j : RDiv(Sum(TLCEval([r \in 1..Rows(x) |-> po[r][o] * x[r][j]])) * e.Z * w[2], e.N * w[1] * e.S))
ParBias(e, p, t) ==
  LET po == p[t.o]
      w == WeightOf(e, t.l, "bias")
  IN TLCEval([o \in 1..Cols(po) |-> RDiv(Sum(TLCEval([r \in 1..Rows(po) |-> po[r][o]])) * e.Z * w[2], e.N * w[1])])
Params(e, q, p) == TLCEval([l \in LayersOf(e.model) |-> LET t == TermOf(e.model, l) IN
                     [weight |-> ParWeight(e, q, p, t), bias |-> IF t.b THEN ParBias(e, p, t) ELSE << >>]])

\* ---- right-hand side of the states (or of data): th are the parameters
Apply(e, th, q, t) ==
  LET x == Arg(e, q, t)
      W == th[t.l].weight
  IN Mat(Rows(x), Len(W), LAMBDA r, o : RDiv(Sum(TLCEval([j \in 1..Cols(x) |-> W[o][j] * x[r][j]])), e.S) + (IF t.b THEN th[t.l].bias[o] ELSE 0))
DampOf(e, k) == LET d == Models[e.model].damp IN Sum([i \in DOMAIN d |-> IF d[i].o = k THEN d[i].num * (2 \div d[i].den) ELSE 0])   \* twice the factor
Rhs(e, th, q, k) ==
  LET ts == SelectSeq(Terms(e.model), LAMBDA t : t.o = k)
      ys == TLCEval([i \in DOMAIN ts |-> Apply(e, th, q, ts[i])])
      d2 == DampOf(e, k)
  IN Mat(Rows(q[k]), Len(ys[1][1]), LAMBDA r, c : Sum([i \in DOMAIN ys |-> ys[i][r][c]]) - (IF d2 = 0 THEN 0 ELSE RDiv(d2 * q[k][r][c] * e.Z, 2)))
RhsAll(e, th, q) == TLCEval([k \in SeqSet(Keys(e.model)) |-> Rhs(e, th, q, k)])

\* ---- right-hand side of the costates: minus the transposed Jacobian applied to the costates
BackRaw(e, th, p, t) ==
  LET W == th[t.l].weight
      po == p[t.o]
  IN Mat(Rows(po), Len(W[1]), LAMBDA r, j : RDiv(Sum(TLCEval([o \in 1..Len(W) |-> W[o][j] * po[r][o]])), e.S))
\* vector-Jacobian product of the normalisation (every channel of every particle by itself), v at scale S*Z
GNBack(e, key, v) ==
  LET xh == e.gn[key].xh
      M == e.g.h * e.g.w
      first(r) == ((r - 1) \div M) * M
      mv(r, c) == RDiv(Sum(TLCEval([i \in 1..M |-> v[first(r) + i][c]])), M)
      mvx(r, c) == RDiv(Sum(TLCEval([i \in 1..M |-> RDiv(v[first(r) + i][c] * xh[first(r) + i][c], e.S)])), M)
  IN Mat(Rows(v), Cols(v), LAMBDA r, c : RDiv(e.gn[key].istd[((r - 1) \div M) + 1][c] * (v[r][c] - mv(r, c) - RDiv(xh[r][c] * mvx(r, c), e.S)), e.S))
BackTerm(e, th, q, p, t) ==
  LET v == Outputs(e.g, BackRaw(e, th, p, t), Cols(q[t.i])) IN
  CASE t.a = "none" -> v
    [] t.a = "nl" -> Mat(Rows(v), Cols(v), LAMBDA r, c : RDiv(DSigma(e.nl, q[t.i][r][c], e.S) * v[r][c], e.S))
    [] t.a = "gn" -> GNBack(e, t.i, v)
CoRhs(e, th, q, p, k) ==
  LET ts == SelectSeq(Terms(e.model), LAMBDA t : t.i = k)
      ys == TLCEval([i \in DOMAIN ts |-> BackTerm(e, th, q, p, ts[i])])
      d2 == DampOf(e, k)
  IN Mat(Rows(q[k]), Cols(q[k]), LAMBDA r, c : - Sum([i \in DOMAIN ys |-> ys[i][r][c]]) + (IF d2 = 0 THEN 0 ELSE RDiv(d2 * p[k][r][c] * e.Z, 2)))
CoRhsAll(e, th, q, p) == TLCEval([k \in SeqSet(Keys(e.model)) |-> CoRhs(e, th, q, p, k)])

\* ---- energies (exact setting S = 1): N times the potential energy at scale Z, twice the kinetic energy at scale Z*Z
PotentialN(e, th, q, p) == LET d == RhsAll(e, th, q) IN
  Sum([i \in DOMAIN Keys(e.model) |-> LET k == Keys(e.model)[i] IN Sum([r \in 1..Rows(p[k]) |-> Sum([c \in 1..Cols(p[k]) |-> p[k][r][c] * d[k][r][c]])])])
SqM(W) == Sum([o \in DOMAIN W |-> Sum([j \in DOMAIN W[o] |-> W[o][j] * W[o][j]])])
SqV(b) == Sum([o \in DOMAIN b |-> b[o] * b[o]])
\* weighted squares as <<numerator over the common denominator e.wden>>
Kinetic2(e, th) == Sum([i \in DOMAIN Terms(e.model) |-> LET t == Terms(e.model)[i] IN
    (SqM(th[t.l].weight) * WeightOf(e, t.l, "weight")[1] * (e.wden \div WeightOf(e, t.l, "weight")[2]))
    + (IF t.b THEN SqV(th[t.l].bias) * WeightOf(e, t.l, "bias")[1] * (e.wden \div WeightOf(e, t.l, "bias")[2]) ELSE 0)])
=============================================================================
