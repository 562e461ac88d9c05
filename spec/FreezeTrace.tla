----------------------------- MODULE FreezeTrace ----------------------------
(* Histories of real modules: Start gives the size of every parameter and which are trainable; Op names parameters;
   Observe shows flags, values (unchanged?), reported counts, and which parameters receive a gradient. *)
EXTENDS TraceKit
VARIABLES l, size, on
RECURSIVE Sum(_, _)
Sum(S, sz) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN sz[p] + Sum(S \ {p}, sz)
SetOf(s) == {s[i] : i \in DOMAIN s}
NewOn(e) == IF e.op = "freeze" THEN on \ SetOf(e.names) ELSE on \cup SetOf(e.names)
Observed(e, now) ==
  Clause("exactly-the-named-ones", SetOf(e.on) = now)
  \cup Clause("values-unchanged", e.same)
  \cup Clause("same-parameters", e.objects)
  \cup Clause("fixed-count", e.fixed = Sum(DOMAIN size \ now, size))
  \cup Clause("optimised-count", e.optimised = Sum(now, size))
  \cup Clause("overall-count", e.overall = Sum(DOMAIN size, size))
  \cup Clause("gradient-exactly-for-trainable", e.hasgrad => SetOf(e.grads) = now)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev \in {"Start", "Restart"} -> {}
              [] e.ev = "Op" -> {}
              [] e.ev = "Observe" -> Observed(e, on)
              [] e.ev = "Reject" -> Clause(e.clause, e.raised)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ size = << >> /\ on = {}
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ size' = IF e.ev = "Start" THEN e.size ELSE size
                   /\ on' = IF e.ev = "Start" THEN SetOf(e.on) ELSE IF e.ev = "Op" THEN NewOn(e) ELSE on
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<size, on>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, size, on>>
=============================================================================
