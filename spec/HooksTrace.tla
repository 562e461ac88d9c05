----------------------------- MODULE HooksTrace -----------------------------
(* Histories of registrations, removals, new custom data and evaluations of a real integrand. An evaluation event lists
   every call of a hook during it. *)
EXTENDS TraceKit
VARIABLES l, live, data
CallOk(e, i) == LET c == e.calls[i] IN c.id = live[i] /\ c.data = data
EvalFails(e) ==
  Clause("every-hook-once-in-order", Len(e.calls) = Len(live) /\ (Len(e.calls) = Len(live) => \A i \in DOMAIN live : e.calls[i].id = live[i]))
  \cup Clause("latest-custom-data", \A i \in DOMAIN e.calls : e.calls[i].data = data)
  \cup Clause("module", \A i \in DOMAIN e.calls : e.calls[i].module)
  \cup Clause("time", \A i \in DOMAIN e.calls : e.calls[i].t = e.t)
  \cup Clause("states-as-given", \A i \in DOMAIN e.calls : e.calls[i].q = e.q /\ e.calls[i].p = e.p /\ e.calls[i].x = e.x)
  \cup Clause("derivatives-as-returned", \A i \in DOMAIN e.calls : e.calls[i].dq = e.dq /\ e.calls[i].dp = e.dp /\ e.calls[i].dx = e.dx)
SeriesFails(e) ==
  Clause("one-entry-per-evaluation", \A i \in DOMAIN e.lens : e.lens[i] = e.evals)
  \cup Clause("all-series", {e.names[i] : i \in DOMAIN e.names} = {e.want[i] : i \in DOMAIN e.want})
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev \in {"Start", "Register", "Remove", "Data"} -> {}
              [] e.ev = "Eval" -> EvalFails(e)
              [] e.ev = "Series" -> SeriesFails(e)
              [] e.ev = "Entry" -> Clause("entry-is-the-value-then", NearSeq(e.a, e.b, e.tol))
              [] e.ev = "Pair" -> Clause(e.clause, NearSeq(e.a, e.b, e.tol))
              [] e.ev = "Reject" -> Clause(e.clause, e.raised)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ live = << >> /\ data = 0
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ live' = CASE e.ev = "Start" -> << >>
                                [] e.ev = "Register" -> Append(live, e.id)
                                [] e.ev = "Remove" -> SelectSeq(live, LAMBDA x : x # e.id)
                                [] OTHER -> live
                   /\ data' = CASE e.ev = "Start" -> 0 [] e.ev = "Data" -> e.d [] OTHER -> data
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<live, data>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, live, data>>
=============================================================================
