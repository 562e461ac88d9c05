------------------------------ MODULE NormTrace -----------------------------
(* After every pass: sets = the parameter sets in use at time zero (all sets of a particle-free block), pen = the reported
   penalty times 2 * D * S^2, has = whether there is one. *)
EXTENDS TraceKit, NormOps
VARIABLES l, last
ReadFails(e) ==
  IF e.zero
  THEN Clause("reported", e.has)
       \cup Clause("kinetic-energy", e.has => Near(e.pen * Len(e.sets), EnergyOfSets(e.sets), IF e.exact THEN 0 ELSE SlackOfSets(e.sets) + Len(e.sets)))
       \cup Clause("same-when-read-again", e.has => e.pen = e.again)
       \cup Clause("scalar", e.has => e.numel = 1)
  ELSE Clause("carried-over", e.has /\ last # << >> => e.pen # last[1])
DiffFails(e) == Clause("differentiable", NearSeq(e.g, e.fd, e.tol))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> {}
              [] e.ev = "Read" -> ReadFails(e)
              [] e.ev = "Diff" -> DiffFails(e)
              [] e.ev = "Same" -> Clause("belongs-to-time-zero", \A i \in DOMAIN e.pens : Near(e.pens[i], e.pens[1], 2))
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ last = << >>
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ last' = CASE e.ev = "Start" -> << >> [] e.ev = "Read" /\ e.has -> <<e.pen>> [] OTHER -> last
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED last
TraceSpec == TraceInit /\ [][TraceNext]_<<l, last>>
=============================================================================
