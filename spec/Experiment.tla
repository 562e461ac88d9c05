------------------------------ MODULE Experiment ----------------------------
(* Sweeps of experiments. An item is a seed together with a combination; it is worked on in its own directory, which
   may hold a result. A sweep goes through its items, runs those that need it (no result, or recomputation forced) and
   skips the others; a run may produce a result or fail; the sweep may be killed at any moment, during a run or not. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Seeds, Combos, MaxSweeps
VARIABLES results,   \* items whose directory holds a result
          sweep,     \* the running sweep, or Idle
          log,       \* items run by the running (or last) sweep, in order
          nsweeps, ended
evars == <<results, sweep, log, nsweeps, ended>>
Idle == [on |-> FALSE]
NeedsRun(res, item, forced) == forced \/ item \notin res
Items(ss, cs) == ss \X cs
EInit == results = {} /\ sweep = Idle /\ log = << >> /\ nsweeps = 0 /\ ended = "none"
Begin(ss, cs, forced) == /\ ~sweep.on /\ nsweeps < MaxSweeps
                         /\ sweep' = [on |-> TRUE, all |-> Items(ss, cs), todo |-> Items(ss, cs), before |-> results, forced |-> forced]
                         /\ log' = << >> /\ nsweeps' = nsweeps + 1 /\ ended' = "none" /\ UNCHANGED results
RunOne(i, ok) == /\ sweep.on /\ i \in sweep.todo /\ NeedsRun(results, i, sweep.forced)
                 /\ log' = Append(log, i) /\ sweep' = [sweep EXCEPT !.todo = @ \ {i}]
                 /\ results' = IF ok THEN results \cup {i} ELSE results
                 /\ UNCHANGED <<nsweeps, ended>>
Skip(i) == /\ sweep.on /\ i \in sweep.todo /\ ~NeedsRun(results, i, sweep.forced)
           /\ sweep' = [sweep EXCEPT !.todo = @ \ {i}] /\ UNCHANGED <<results, log, nsweeps, ended>>
\* killed while item i is being run (it may have produced its result already)
Killed(i, ok) == /\ sweep.on /\ i \in sweep.todo /\ NeedsRun(results, i, sweep.forced)
                 /\ log' = Append(log, i) /\ results' = (IF ok THEN results \cup {i} ELSE results)
                 /\ sweep' = [sweep EXCEPT !.on = FALSE] /\ ended' = "killed" /\ UNCHANGED nsweeps
Finish == sweep.on /\ sweep.todo = {} /\ sweep' = [sweep EXCEPT !.on = FALSE] /\ ended' = "finished" /\ UNCHANGED <<results, log, nsweeps>>
Remove(i) == ~sweep.on /\ i \in results /\ results' = results \ {i} /\ ended' = "none" /\ UNCHANGED <<sweep, log, nsweeps>>
ENext == \/ \E ss \in SUBSET Seeds, cs \in SUBSET Combos, f \in BOOLEAN : Begin(ss, cs, f)
         \/ \E i \in Items(Seeds, Combos) : Skip(i) \/ Remove(i) \/ \E ok \in BOOLEAN : RunOne(i, ok) \/ Killed(i, ok)
         \/ Finish
ESpec == EInit /\ [][ENext]_evars
Ran == {log[k] : k \in DOMAIN log}
Count(i) == Cardinality({k \in DOMAIN log : log[k] = i})
NeverTwice == \A i \in Items(Seeds, Combos) : Count(i) <= 1
OnlyRequested == (nsweeps > 0 /\ (ended # "none" \/ sweep.on)) => Ran \subseteq sweep.all
OnlyMissing == (nsweeps > 0 /\ (ended # "none" \/ sweep.on)) => \A i \in Ran : sweep.forced \/ i \notin sweep.before
\* a sweep that finished ran exactly what was missing (all, if forced)
Exactly == ended = "finished" => Ran = (IF sweep.forced THEN sweep.all ELSE sweep.all \ sweep.before)
ResultsKept == [][\A i \in results : i \in results' \/ (~sweep.on /\ ~(sweep'.on))]_evars
=============================================================================
