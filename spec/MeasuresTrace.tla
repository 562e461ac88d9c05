---------------------------- MODULE MeasuresTrace ---------------------------
(* Norms: parameter matrices as integers (or their singular values) and the norms the code reports, times 1000.
   Complexity: a record (times in ticks, sums times sc) and the measures reported, in 1/4096 per tick. *)
EXTENDS TraceKit
VARIABLES l, n
MO == INSTANCE MatOps
Labels(objs) == UNION {{<<objs[o].name \o "." \o objs[o].pars[p].name, o, p>> : p \in {p \in DOMAIN objs[o].pars : objs[o].pars[p].name # "bias"}} : o \in DOMAIN objs}
KeysOf(objs) == {k \o x[1] : k \in {"sqr_frobenius_norm_", "sqr_nuclear_norm_", "sqr_spectral_norm_"}, x \in Labels(objs)}
               \cup {"sum_sqr_frobenius_norm", "sum_sqr_nuclear_norm", "sum_sqr_spectral_norm"}
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumOver(_, _, _)
SumOver(S, e, pre) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN e.got[pre \o x[1]] + SumOver(S \ {x}, e, pre)
Rel(v) == 15 + v \div 2000
FroOk(par, v) == IF par.kind = "sv" THEN Near(v, 1000 * MO!SumS([i \in DOMAIN par.sv |-> par.sv[i] * par.sv[i]]), Rel(v)) ELSE Near(v, 1000 * MO!Fro2(par.mat), 2 + v \div 20000)
SpeOk(par, v) == IF par.kind = "sv" THEN Near(v, 1000 * MO!MaxS([i \in DOMAIN par.sv |-> par.sv[i] * par.sv[i]]), Rel(v)) ELSE MO!IsSpectral(MO!Gram(par.mat), v, 1)
NucOk(par, v) == IF par.kind = "sv" THEN LET s == MO!SumS([i \in DOMAIN par.sv |-> MO!AbsV(par.sv[i])]) IN Near(v, 1000 * s * s, Rel(v)) ELSE MO!IsNuclear(MO!Gram(par.mat), v, 2)
Norms(e) ==
  LET L == Labels(e.objs) complete == SetOf(e.keys) = KeysOf(e.objs) IN
  Clause("every-non-bias-matrix", complete)
  \cup (IF ~complete THEN {} ELSE
     Clause("frobenius", \A x \in L : FroOk(e.objs[x[2]].pars[x[3]], e.got["sqr_frobenius_norm_" \o x[1]]))
     \cup Clause("spectral", \A x \in L : SpeOk(e.objs[x[2]].pars[x[3]], e.got["sqr_spectral_norm_" \o x[1]]))
     \cup Clause("nuclear", \A x \in L : NucOk(e.objs[x[2]].pars[x[3]], e.got["sqr_nuclear_norm_" \o x[1]]))
     \cup Clause("sum-frobenius", Near(e.got["sum_sqr_frobenius_norm"], SumOver(L, e, "sqr_frobenius_norm_"), 3 + e.got["sum_sqr_frobenius_norm"] \div 50000))
     \cup Clause("sum-nuclear", Near(e.got["sum_sqr_nuclear_norm"], SumOver(L, e, "sqr_nuclear_norm_"), 3 + e.got["sum_sqr_nuclear_norm"] \div 50000))
     \cup Clause("sum-spectral", Near(e.got["sum_sqr_spectral_norm"], SumOver(L, e, "sqr_spectral_norm_"), 3 + e.got["sum_sqr_spectral_norm"] \div 50000)))
  \cup Clause("parameters-untouched", e.same)
Dt(a, b) == IF b < a THEN 0 ELSE b - a
RECURSIVE Integral(_, _, _, _)
Integral(t, f, sc, k) == IF k <= 1 THEN 0 ELSE Integral(t, f, sc, k - 1) + Dt(t[k - 1], t[k]) * MO!Log2(f[k - 1] + f[k], 2 * sc)
RECURSIVE TotalTo(_, _)
TotalTo(t, k) == IF k <= 1 THEN 0 ELSE TotalTo(t, k - 1) + Dt(t[k - 1], t[k])
Measured(e) ==
  LET tol == 2 + (IF e.exact THEN 0 ELSE 12 * TotalTo(e.t, Len(e.t))) IN
  Clause("log2-frobenius", Near(e.got[1], Integral(e.t, e.fro, e.sc, Len(e.t)), tol))
  \cup Clause("log2-nuclear", Near(e.got[2], Integral(e.t, e.nuc, e.sc, Len(e.t)), tol))
  \cup Clause("log2-spectral", Near(e.got[3], Integral(e.t, e.spe, e.sc, Len(e.t)), tol))
  \cup Clause("exactly-three-measures", e.three)
  \cup Clause("record-untouched", e.same)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> {}
              [] e.ev = "Norms" -> Norms(e)
              [] e.ev = "Complexity" -> Measured(e)
              [] e.ev = "Hook" -> Clause("recorded-at-every-evaluation", e.len = e.times) \cup Clause("norms-of-the-recorded-parameters", e.same)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ n = 0
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l])) /\ n' = n + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED n
TraceSpec == TraceInit /\ [][TraceNext]_<<l, n>>
=============================================================================
