------------------------------ MODULE FlowTrace -----------------------------
(* Forward passes of one block with unchanged parameters (a behaviour begins with Start). The specification learns where
   each sample goes and where the particles go from the first pass that shows it, and holds later passes to it. *)
EXTENDS TraceKit
VARIABLES l, fate, fin
Empty == << >>
StepSample(f, e, j) == [f EXCEPT ![e.ids[j]] = e.out[j]]
NearNest(a, b, tol) == NearSeq(a, b, tol)
PassFails(e) ==
  Clause("one-result-per-sample", Len(e.out) = Len(e.ids))
  \cup IF Len(e.out) # Len(e.ids) THEN {} ELSE
  Clause("sample-independent-of-batch", \A j \in DOMAIN e.ids : fate[e.ids[j]] = Empty \/ NearSeq(fate[e.ids[j]], e.out[j], e.tol))
  \cup Clause("same-place-same-fate", \A j \in DOMAIN e.ids : \A k \in DOMAIN e.ids : e.ids[j] = e.ids[k] => NearSeq(e.out[j], e.out[k], e.tol))
  \cup Clause("particles-ignore-data", fin = Empty \/ NearSeq(fin, e.fin, e.tol))
  \cup Clause("data-follows-particle", \A j \in DOMAIN e.ids : e.ids[j] <= Len(e.particles) => NearSeq(e.out[j], e.particles[e.ids[j]], e.tol))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> {}
              [] e.ev = "Pass" -> PassFails(e)
              [] OTHER -> {"unknown-event"}
RECURSIVE Learn(_, _, _)
Learn(f, e, j) == IF j = 0 THEN f ELSE LET g == Learn(f, e, j - 1) IN IF g[e.ids[j]] = Empty THEN [g EXCEPT ![e.ids[j]] = e.out[j]] ELSE g
None == [i \in 1..9 |-> Empty]
TraceInit == l = 1 /\ fate = None /\ fin = Empty
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ fate' = CASE e.ev = "Start" -> None [] e.ev = "Pass" /\ Len(e.out) = Len(e.ids) -> Learn(fate, e, Len(e.ids)) [] OTHER -> fate
                   /\ fin' = CASE e.ev = "Start" -> Empty [] e.ev = "Pass" /\ fin = Empty -> e.fin [] OTHER -> fin
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<fate, fin>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, fate, fin>>
=============================================================================
