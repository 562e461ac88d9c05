------------------------------ MODULE SweepTrace ----------------------------
(* Real sweeps. A table is a sequence of keys (numbered) with the code of each value (equal values share a code).
   Sweep: the keys and value codes of each combination returned. Disturb: one combination (or the table, 0) was changed
   in place by the caller; which combinations and whether the table now look different. *)
EXTENDS TraceKit
VARIABLES l, tables
S == INSTANCE Sweep WITH MaxKeys <- 0, MaxVals <- 0, tbl <- << >>, cur <- << >>, out <- << >>, phase <- "none"
Lens(v) == [k \in DOMAIN v |-> Len(v[k])]
Expected(v) == [i \in 1..S!Prod(Lens(v)) |-> LET d == S!Digits(Lens(v), i - 1) IN [k \in DOMAIN v |-> v[k][d[k]]]]
Swept(e) == LET want == Expected(e.vals) IN
  Clause("a-list", e.islist)
  \cup Clause("number-of-combinations", Len(e.out) = Len(want))
  \cup Clause("every-combination-in-order", e.out = want)
  \cup Clause("all-keys-in-table-order", \A i \in DOMAIN e.keys : e.keys[i] = [k \in DOMAIN e.vals |-> k])
  \cup Clause("table-unmodified", e.tablesame)
  \cup Clause("independent-of-earlier-sweeps", e.oldsame)
SetOf(s) == {s[i] : i \in DOMAIN s}
Disturbed(e) ==
  Clause("combinations-independent", SetOf(e.changed) \subseteq (IF e.who = 0 THEN {} ELSE {e.who}))
  \cup Clause("table-independent", e.who # 0 => ~e.tablechanged)
  \cup Clause("earlier-results-independent", ~e.oldchanged)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> {}
              [] e.ev = "Sweep" -> Swept(e)
              [] e.ev = "Disturb" -> Disturbed(e)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ tables = 0
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l]))
                /\ tables' = IF Trace[l].ev = "Start" THEN 0 ELSE tables + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED tables
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tables>>
=============================================================================
