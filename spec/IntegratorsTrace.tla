--------------------------- MODULE IntegratorsTrace -------------------------
EXTENDS TraceKit, IntegOps
\* recorded: how the integrators were made (in order, sharing option objects) and at which times each evaluated the function
MadeFails(e) ==
  Clause("options-object-unchanged", e.intact)
  \cup UNION {LET x == e.made[i]
                  opt == IF x.o = None THEN None ELSE e.caller[x.o]
              IN IF x.m \in Fixed THEN Clause("steps-of-" \o x.m, x.evals = Evals(x.m, Effective(x.m, opt, x.d), e.t)) ELSE {} : i \in DOMAIN e.made}
PairFails(e) == Clause(e.clause, Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : NearSeq(e.a[i], e.b[i], e.tol))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Made" -> MadeFails(e)
              [] e.ev = "Pair" -> PairFails(e)
              [] e.ev = "Flag" -> Clause(e.clause, e.ok)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
