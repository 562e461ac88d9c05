---------------------------- MODULE LifecycleTrace --------------------------
(* Behaviours of real blocks. The specification remembers the configuration, whether a pass was made, the first list of
   names and objects, and the result for each input since the last training step. *)
EXTENDS TraceKit, LifeOps
VARIABLES l, cfg, forwarded, names, ids, seen
NoSeen == <<<< >>, << >>, << >>>>
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
ListFails(e) ==
  IF ~forwarded THEN Clause("refused-before-first-forward", ~e.ok)
  ELSE Clause("listed", e.ok) \cup IF ~e.ok THEN {} ELSE
    Clause("complete", Sum(e.numels) = Scalars(cfg) /\ Len(e.ids) = cfg.ntensors + EnlargeTensors(cfg))
    \cup Clause("unique", Distinct(e.ids) /\ Distinct(e.names) /\ Len(e.names) = Len(e.ids))
    \cup Clause("stable-names", names = << >> \/ e.names = names)
    \cup Clause("not-replaced", ids = << >> \/ e.ids = ids)
ForwardFails(e) == Clause("same-result-again", seen[e.x] = << >> \/ NearSeq(seen[e.x], e.out, e.tol))
                   \cup Clause("states-kept-at-zero", cfg.zero => e.maxstate = 0)
GradFails(e) == Clause("gradient", \A i \in DOMAIN e.nonzero : e.nonzero[i] = 1)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev \in {"Start", "Train", "Convert"} -> {}
              [] e.ev = "List" -> ListFails(e)
              [] e.ev = "Forward" -> ForwardFails(e)
              [] e.ev = "Grad" -> GradFails(e)
              [] e.ev = "Load" -> Clause("reload-by-name", NearSeq(e.a, e.b, e.tol))
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ cfg = << >> /\ forwarded = FALSE /\ names = << >> /\ ids = << >> /\ seen = NoSeen
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ cfg' = IF e.ev = "Start" THEN e.cfg ELSE cfg
                   /\ forwarded' = CASE e.ev = "Start" -> FALSE [] e.ev = "Forward" -> TRUE [] OTHER -> forwarded
                   /\ names' = CASE e.ev = "Start" -> << >> [] e.ev = "List" /\ e.ok /\ forwarded -> (IF names = << >> THEN e.names ELSE names) [] OTHER -> names
                   /\ ids' = CASE e.ev \in {"Start", "Convert"} -> << >> [] e.ev = "List" /\ e.ok /\ forwarded -> (IF ids = << >> THEN e.ids ELSE ids) [] OTHER -> ids
                   /\ seen' = CASE e.ev \in {"Start", "Train"} -> NoSeen
                                [] e.ev = "Forward" -> [seen EXCEPT ![e.x] = IF @ = << >> THEN e.out ELSE @]
                                [] OTHER -> seen
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<cfg, forwarded, names, ids, seen>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, forwarded, names, ids, seen>>
=============================================================================
