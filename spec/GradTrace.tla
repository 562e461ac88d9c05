------------------------------ MODULE GradTrace -----------------------------
(* Exact: a real one-layer block started at s, stepped T times: final values and the gradients autograd returned, judged by the
   integer derivatives. Deriv: any other block, chain or network: projections of the gradient against difference quotients. *)
EXTENDS TraceKit, GradOps
VARIABLES l
ExactFails(e) ==
  LET end == Path(e.mode, e.s, Pars(e.mode, e.s), e.T)[e.T + 1]
      g == Back(e.mode, e.s, e.T, e.w)
  IN Clause("value-data", e.x = end.x)
     \cup Clause("value-state", e.mode # "direct" => e.q = end.q)
     \cup Clause("value-costate", e.mode # "direct" => e.p = end.p)
     \cup Clause("gradient-data", e.gx = g.x)
     \cup Clause("gradient-state", e.mode # "direct" => e.gq = g.q)
     \cup Clause("gradient-costate", e.mode # "direct" => e.gp = g.p)
     \cup Clause("gradient-parameter", e.mode = "direct" => e.gA = g.A /\ e.gb = g.b)
DerivFails(e) == Clause("finite", e.finite) \cup Clause("true-derivative", NearSeq(e.ad, e.fd, e.tol))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Exact" -> ExactFails(e)
              [] e.ev = "Deriv" -> DerivFails(e)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l]))
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
