---------------------------- MODULE SeedingTrace ----------------------------
(* Seed(s) and Draw(kind, value) as observed; key = the seed and the draws since it, learnt = what was drawn under which key. *)
EXTENDS TraceKit
VARIABLES l, key, learnt
\* a draw of this kind has been made under key a, and b is a later key of the same run
Before(a, b, k) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a) + 1) = Append(a, k)
DrawFails(e) ==
  Clause("reproducible", key[1] = "seeded" => \A r \in learnt : r.key = key /\ r.kind = e.kind => r.value = e.value)
  \cup Clause("other-seed-other-values", \A r \in learnt : r.kind = e.kind /\ (r.key[1] # key[1] \/ r.key[2] # key[2]) => r.value # e.value)
  \cup Clause("drawn-anew", \A r \in learnt : r.kind = e.kind /\ Before(r.key, key, e.kind) => r.value # e.value)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Draw" -> DrawFails(e)
              [] e.ev \in {"Start", "Seed"} -> {}
              [] OTHER -> {"unknown-event"}
Advance(e) == CASE e.ev = "Start" -> key' = <<"unseeded", l>> /\ learnt' = {}
                [] e.ev = "Seed" -> key' = (IF e.s = -1 THEN key ELSE <<"seeded", e.s>>) /\ UNCHANGED learnt
                [] e.ev = "Draw" -> /\ learnt' = learnt \cup {[key |-> key, kind |-> e.kind, value |-> e.value]} /\ key' = Append(key, e.kind)
                [] OTHER -> UNCHANGED <<key, learnt>>
TraceInit == l = 1 /\ key = <<"unseeded", 0>> /\ learnt = {}
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l])) /\ Advance(Trace[l])
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<key, learnt>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, key, learnt>>
=============================================================================
