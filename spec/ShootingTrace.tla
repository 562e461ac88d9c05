---------------------------- MODULE ShootingTrace ---------------------------
(* Recorded evaluations of the real integrands, judged with the equations of ShootOps. *)
EXTENDS TraceKit, ShootOps
P == IOEnv.PROPERTY

\* a block's tensor as a matrix: rows (particle, dimension) or (particle, y, x); columns features or channels
LinRows(b, tr) == IF tr
  THEN Mat(Len(b) * Len(b[1][1]), Len(b[1]), LAMBDA r, c : b[((r - 1) \div Len(b[1][1])) + 1][c][((r - 1) % Len(b[1][1])) + 1])
  ELSE Mat(Len(b) * Len(b[1]), Len(b[1][1]), LAMBDA r, c : b[((r - 1) \div Len(b[1])) + 1][((r - 1) % Len(b[1])) + 1][c])
ConvRows(b) == LET h == Len(b[1][1])
                   w == Len(b[1][1][1])
  IN Mat(Len(b) * h * w, Len(b[1]), LAMBDA r, c : b[((r - 1) \div (h * w)) + 1][c][(((r - 1) \div w) % h) + 1][((r - 1) % w) + 1])
BlockRows(e, b) == IF e.kind = "lin" THEN LinRows(b, e.tr) ELSE ConvRows(b)
RECURSIVE Glue(_, _)
Glue(ms, i) == IF i = 1 THEN ms[1] ELSE LET a == Glue(ms, i - 1) IN [r \in DOMAIN a |-> a[r] \o ms[i][r]]
Joint(e, bs) == TLCEval(Glue(TLCEval([i \in DOMAIN bs |-> BlockRows(e, bs[i])]), Len(bs)))
JointAll(e, d) == TLCEval([k \in DOMAIN d |-> Joint(e, d[k])])

FlatKernel(w) == TLCEval([o \in DOMAIN w |-> TLCEval([j \in 1..(Len(w[o]) * Len(w[o][1]) * Len(w[o][1][1])) |->
      LET kk == Len(w[o][1]) * Len(w[o][1][1])
          z == j - 1 IN w[o][(z \div kk) + 1][((z % kk) \div Len(w[o][1][1])) + 1][(z % Len(w[o][1][1])) + 1]])])
Theta(e) == TLCEval([l \in DOMAIN e.th |-> [weight |-> IF e.kind = "lin" THEN e.th[l].weight ELSE FlatKernel(e.th[l].weight), bias |-> e.th[l].bias]])

NormOf(e, f) == IF f \in DOMAIN e THEN [k \in DOMAIN e[f] |-> [xh |-> ConvRows(e[f][k].xh), istd |-> e[f][k].istd]] ELSE << >>
Geo(e, d) == IF e.kind = "lin" THEN [kind |-> "lin"]
             ELSE [kind |-> "conv", h |-> Len(d["q1"][1][1][1]), w |-> Len(d["q1"][1][1][1][1]), k |-> 3, pad |-> 1]
Base(e, d, gnf) == [model |-> e.model, nl |-> e.nl, S |-> e.S, Z |-> e.Z, N |-> e.N, g |-> Geo(e, d), gn |-> NormOf(e, gnf), wts |-> e.wts]

SameShapeM(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i])
NearM(a, b, tol) == SameShapeM(a, b) /\ \A i \in DOMAIN a : \A j \in DOMAIN a[i] : Near(a[i][j], b[i][j], tol)
NearAll(a, b, tol) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : NearM(a[k], b[k], tol)
NearTh(a, b, tol) == DOMAIN a = DOMAIN b /\ \A l \in DOMAIN a : NearM(a[l].weight, b[l].weight, tol) /\ NearSeq(a[l].bias, b[l].bias, tol)

\* the logged normalised values are the ones of the logged states (so they may be used)
NormOk(e, xx, key, gn) == LET x == xx[key] IN \A r \in 1..Rows(x) : \A c \in 1..Cols(x) :
   LET M == Len(e.q["q1"][1][1][1]) * Len(e.q["q1"][1][1][1][1])
       n == (r - 1) \div M
       mean == RDiv(Sum([i \in 1..M |-> x[n * M + i][c]]), M)
   IN Near(gn[key].xh[r][c], RDiv((x[r][c] - mean) * gn[key].istd[n + 1][c], e.S), e.S \div 8)

EvalFails(e) ==
  LET q == JointAll(e, e.q)
      p == JointAll(e, e.p)
      x == JointAll(e, e.x)
      s == Base(e, e.q, "gn")
      sx == Base(e, e.x, "gnx")
      th == Theta(e)
      tol == e.tol
  IN (IF P \in {"C04", "C05"} /\ e.model # "Transport" THEN Clause("parameters", NearTh(th, Params(s, q, p), tol)) ELSE {})
     \cup (IF P \in {"C03", "C05"} THEN Clause("state-equation", NearAll(JointAll(e, e.dq), RhsAll(s, th, q), tol)) ELSE {})
     \cup (IF P \in {"C03", "C05"} /\ e.model # "Transport" THEN Clause("costate-equation", NearAll(JointAll(e, e.dp), CoRhsAll(s, th, q, p), tol)) ELSE {})
     \cup (IF P \in {"C03", "C05", "C07"} THEN Clause("data-equation", NearAll(JointAll(e, e.dx), RhsAll(sx, th, x), tol)) ELSE {})
     \cup (IF e.model = "ConvBatch" THEN Clause("normalised-input", NormOk(e, q, "q1", s.gn)) ELSE {})

\* analytic against autodiff: numbers in units of e.unit, relative to the largest
PairFails(e) == Clause("agree", Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : NearSeq(e.a[i], e.b[i], e.tol))

Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Eval" -> EvalFails(e)
              [] e.ev = "Pair" -> PairFails(e)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
