----------------------------- MODULE EnlargeTrace ---------------------------
(* One first evaluation of a block with pass-through states. items: every passed-through tensor with its shape before (s),
   the shape it has to get (t), the observed shape (g) and values (v): -k for its own k-th entry, positive for parameter
   numbers, 0 for zero, "zero" whether new entries are kept at zero. nparam: number of enlargement parameters. *)
EXTENDS TraceKit, EnlargeOps
ItemFails(it) ==
  IF it.g # it.t THEN {"enlarged-to-the-own-size"} ELSE
  UNION {LET p == Embedded(i, it.s, it.t)  x == it.v[i + 1] IN
         IF p > 0 THEN Clause("original-in-the-centre", x = -p)
         ELSE Clause("new-entries-are-parameters", IF it.zero THEN x = 0 ELSE x > 0) : i \in 0..(Numel(it.t) - 1)}
\* all parameter numbers, each exactly once over all tensors
RECURSIVE Collect(_, _)
Collect(items, n) == IF n = 0 THEN << >> ELSE Collect(items, n - 1) \o SelectSeq(items[n].v, LAMBDA x : x > 0)
EnlargeFails(e) ==
  UNION {ItemFails(e.items[i]) : i \in DOMAIN e.items}
  \cup LET used == Collect(e.items, Len(e.items)) IN
       Clause("every-parameter-exactly-once", Len(used) = e.nparam /\ {used[i] : i \in DOMAIN used} = 1..e.nparam)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Enlarge" -> EnlargeFails(e)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
