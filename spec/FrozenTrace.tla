----------------------------- MODULE FrozenTrace ----------------------------
(* Passes of real blocks. vals: the distinct parameter vectors seen, used: which of them each evaluation used.
   Frozen: all the same, and those the particles at the beginning of this pass determine (ref).
   Own: every parameter entry in use is a registered trainable parameter of the block (ids, by value); evaluations in the same
   piece use the same ones, those in different pieces different ones; together they are all the block has. *)
EXTENDS TraceKit, LookupOps
FrozenFails(e) ==
  Clause("evaluated", Len(e.used) > 0)
  \cup Clause("same-for-entire-pass", \A i \in DOMAIN e.used : NearSeq(e.vals[e.used[i]], e.vals[e.used[1]], e.tol))
  \cup Clause("from-the-initial-particles", Len(e.used) > 0 => NearSeq(e.vals[e.used[1]], e.ref, e.tol))
Ids(v) == {v[i] : i \in DOMAIN v}
OwnFails(e) ==
  LET P(i) == Piece(e.us[i], e.K, e.G) IN
  Clause("evaluated", Len(e.us) > 0)
  \cup Clause("parameters-of-the-block", \A i \in DOMAIN e.ids : 0 \notin Ids(e.ids[i]) /\ Cardinality(Ids(e.ids[i])) = Len(e.ids[i]))
  \cup Clause("one-set-per-piece", \A i, j \in DOMAIN e.ids : P(i) = P(j) => e.ids[i] = e.ids[j])
  \cup Clause("own-set-for-every-piece", \A i, j \in DOMAIN e.ids : P(i) # P(j) => Ids(e.ids[i]) \cap Ids(e.ids[j]) = {})
  \cup Clause("nothing-else", e.all => Cardinality(UNION {Ids(e.ids[i]) : i \in DOMAIN e.ids}) = e.registered)
GradFails(e) == Clause("gradient-reaches-every-parameter", e.n > 0 /\ \A i \in DOMAIN e.nonzero : e.nonzero[i] = 1)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Frozen" -> FrozenFails(e)
              [] e.ev = "Own" -> OwnFails(e)
              [] e.ev = "Grad" -> GradFails(e)
              [] e.ev = "Pair" -> Clause(e.clause, Len(e.a) > 0 /\ NearSeq(e.a, e.b, e.tol))
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
