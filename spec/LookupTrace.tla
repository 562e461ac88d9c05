----------------------------- MODULE LookupTrace ----------------------------
EXTENDS TraceKit, LookupOps
AskFails(e) ==
  Clause("number-of-sets", e.sets = e.K)
  \cup Clause("one-answer-each", Len(e.ans) = Len(e.us))
  \cup Clause("set-of-the-piece", \A i \in DOMAIN e.us : i \in DOMAIN e.ans /\ e.ans[i] = Piece(e.us[i], e.K, e.G))
\* an integration: at every evaluation the parameters in use are those of the piece
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Ask" -> AskFails(e)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
