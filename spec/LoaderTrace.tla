----------------------------- MODULE LoaderTrace -----------------------------
(* Batches observed from the real loaders. A batch lists which sample of which split every element is (by its content; -1: none), with
   the offset of its window (0 0 for unchanged pictures), whether the labels belong to the samples, and the size of the pictures. *)
EXTENDS TraceKit
VARIABLES l, cfg, iters, orders
Range(s) == {s[i] : i \in DOMAIN s}
Size(k) == IF k = "test" THEN cfg.ntest ELSE cfg.ntrain
Batch(k) == IF k = "train" THEN cfg.b ELSE cfg.btest
BatchFails(e) == LET it == iters[e.it] k == it.loader IN
  Clause("own-split", \A i \in DOMAIN e.ids : e.ids[i] \in 0..(Size(k) - 1) /\ e.split = (IF k = "test" THEN "test" ELSE "train"))
  \cup Clause("full-batch", Len(e.ids) = Batch(k))
  \cup Clause("not-after-the-end", ~it.over /\ Len(it.out) + Batch(k) <= Size(k))
  \cup Clause("none-twice", Cardinality(Range(it.out \o e.ids)) = Len(it.out) + Len(e.ids))
  \cup Clause("fixed-order", k = "train" \/ \A i \in DOMAIN e.ids : e.ids[i] = Len(it.out) + i - 1)
  \cup Clause("label-of-the-sample", e.labels)
  \cup Clause("whole-picture", e.size = cfg.side)
  \cup Clause("unit-range-float", e.float)
  \cup Clause("only-augmented-training-moves", (k = "train" /\ cfg.aug = 1) \/ \A i \in DOMAIN e.dx : e.dx[i] = 0 /\ e.dy[i] = 0)
  \cup Clause("moved-at-most-four", \A i \in DOMAIN e.dx : e.dx[i] \in -4..4 /\ e.dy[i] \in -4..4)
EndFails(e) == LET it == iters[e.it] k == it.loader IN
  Clause("ends-only-at-the-end", Size(k) - Len(it.out) < Batch(k))
  \* two passes in the same order: for ten samples or more a chance of less than one in three million
  \cup Clause("shuffled-anew", k # "train" \/ Len(it.out) < 10 \/ ~(it.out \in orders))
  \cup Clause("shuffled", k # "train" \/ Len(it.out) < 10 \/ \E i \in DOMAIN it.out : it.out[i] # i - 1)
MovesFails(e) == Clause("moves-are-random", e.seen >= 3)
MadeFails(e) == Clause("classes", e.classes = (IF e.name = "CIFAR100" THEN 100 ELSE 10))
  \cup Clause("kept-in-own-folder", e.own) \cup Clause("fetched-if-missing", e.fetch) \cup Clause("lengths", e.len = <<Size("train") \div Batch("train"), Size("test") \div Batch("test"), Size("eval") \div Batch("eval")>>)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Made" -> MadeFails(e)
              [] e.ev = "Batch" -> BatchFails(e)
              [] e.ev = "End" -> EndFails(e)
              [] e.ev = "Moves" -> MovesFails(e)
              [] e.ev = "Unknown" -> Clause("unknown-name-refused", e.refused)
              [] e.ev \in {"Start", "Open"} -> {}
              [] OTHER -> {"unknown-event"}
Step(e) == CASE e.ev = "Start" -> cfg' = e /\ iters' = << >> /\ orders' = {}
             [] e.ev = "Open" -> iters' = Append(iters, [loader |-> e.loader, out |-> << >>, over |-> FALSE]) /\ UNCHANGED <<cfg, orders>>
             [] e.ev = "Batch" -> iters' = [iters EXCEPT ![e.it].out = @ \o e.ids] /\ UNCHANGED <<cfg, orders>>
             [] e.ev = "End" -> /\ iters' = [iters EXCEPT ![e.it].over = TRUE] /\ UNCHANGED cfg
                                /\ orders' = (IF iters[e.it].loader = "train" THEN orders \cup {iters[e.it].out} ELSE orders)
             [] OTHER -> UNCHANGED <<cfg, iters, orders>>
TraceInit == l = 1 /\ cfg = <<>> /\ iters = << >> /\ orders = {}
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l])) /\ Step(Trace[l])
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<cfg, iters, orders>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, iters, orders>>
=============================================================================
