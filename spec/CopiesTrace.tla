----------------------------- MODULE CopiesTrace ----------------------------
(* Histories of two real models. hist/time follow the operations as in Copies.tla; learnt holds what passes returned so far: the
   same parameters and time give the same result, gradients and penalty; other parameters other results. *)
EXTENDS TraceKit
VARIABLES l, hist, time, file, learnt, names
v == <<l, hist, time, file, learnt, names>>
Put(f, k, x) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN x ELSE f[i]]
PassFails(e) ==
  LET me == <<hist[e.h], time[e.h]>> IN
  Clause("same-model", \A r \in learnt : r.h = me[1] /\ r.t = me[2] => NearSeq(r.out, e.out, 3))
  \cup Clause("same-gradients", \A r \in learnt : r.h = me[1] /\ r.t = me[2] => NearSeq(r.grad, e.grad, 5))
  \cup Clause("independent", \A r \in learnt : r.h # me[1] /\ r.t = me[2] => r.out # e.out)
  \cup Clause("same-names", names = << >> \/ names[1] = e.names)
  \cup Clause("trainable", e.trainable)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Pass" -> PassFails(e)
              [] e.ev \in {"Start", "Train", "Step", "Time", "Copy", "Save", "Load", "Restore"} -> {}
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ hist = << >> /\ time = << >> /\ file = << >> /\ learnt = {} /\ names = << >>
Effect(e) ==
  CASE e.ev = "Start" -> /\ hist' = (1 :> <<<<-1, 1>>>> @@ 2 :> <<<<-1, 2>>>>) /\ time' = (1 :> 1 @@ 2 :> 1) /\ file' = << >> /\ learnt' = {} /\ names' = << >>
    [] e.ev = "Train" -> hist' = Put(hist, e.h, Append(hist[e.h], <<0, e.id>>)) /\ UNCHANGED <<time, file, learnt, names>>
    [] e.ev = "Step" -> hist' = Put(hist, e.h, Append(hist[e.h], <<1, time[e.h]>>)) /\ UNCHANGED <<time, file, learnt, names>>
    [] e.ev = "Time" -> time' = Put(time, e.h, e.t) /\ UNCHANGED <<hist, file, learnt, names>>
    [] e.ev = "Copy" -> hist' = Put(hist, e.b, hist[e.a]) /\ time' = Put(time, e.b, time[e.a]) /\ UNCHANGED <<file, learnt, names>>
    [] e.ev = "Save" -> file' = <<hist[e.h], time[e.h]>> /\ UNCHANGED <<hist, time, learnt, names>>
    [] e.ev = "Load" -> hist' = Put(hist, e.h, file[1]) /\ time' = Put(time, e.h, file[2]) /\ UNCHANGED <<file, learnt, names>>
    [] e.ev = "Restore" -> hist' = Put(hist, e.b, hist[e.a]) /\ UNCHANGED <<time, file, learnt, names>>
    [] e.ev = "Pass" -> /\ learnt' = learnt \cup {[h |-> hist[e.h], t |-> time[e.h], out |-> e.out, grad |-> e.grad]}
                        /\ names' = <<e.names>> /\ UNCHANGED <<hist, time, file>>
    [] OTHER -> UNCHANGED <<hist, time, file, learnt, names>>
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l])) /\ Effect(Trace[l])
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<hist, time, file, learnt, names>>
TraceSpec == TraceInit /\ [][TraceNext]_v
=============================================================================
