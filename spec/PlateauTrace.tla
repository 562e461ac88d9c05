---------------------------- MODULE PlateauTrace ----------------------------
(* A Run event: configuration, metric values, and the rates and convergence flag the real scheduler showed after each of them
   (possibly saved and restored in between). The specification computes them. *)
EXTENDS TraceKit, PlateauOps
VARIABLE l
RunFails(e) == LET R == Run(e.c, Start(e.c), e.m) IN
  Clause("as-many-steps", Len(e.lr) = Len(e.m))
  \cup Clause("rates", \A i \in DOMAIN e.lr : e.lr[i] = R[i].lr)
  \cup Clause("convergence", \A i \in DOMAIN e.conv : e.conv[i] = R[i].conv)
  \cup Clause("not-converged-at-first", ~e.first)
  \cup Clause("nothing-else-changed", e.rest)
\* any factor: the rates are those of the steps in units of 1e-6 relative
FloatFails(e) == LET R == Run(e.c, Start(e.c), e.m) IN
  Clause("cuts", \A i \in DOMAIN e.cuts : e.cuts[i] = Cardinality({j \in 1..i : R[j].cut}))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Run" -> RunFails(e)
              [] e.ev = "Cuts" -> FloatFails(e)
              [] e.ev = "Reject" -> Clause(e.clause, e.raised)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l]))
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
