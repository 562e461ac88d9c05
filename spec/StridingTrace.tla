---------------------------- MODULE StridingTrace ---------------------------
EXTENDS TraceKit, StrideOps
SetOf(seq) == {seq[i] : i \in DOMAIN seq}
Exp(x, e, off) == LET t == StrideAll([s |-> x.s, v |-> x.v], e.dims, e.strides, off) IN [b |-> x.b, k |-> x.k, s |-> t.s, v |-> t.v]
Want(seq, e, off) == {Exp(seq[i], e, off) : i \in DOMAIN seq}
StrideFails(e) ==
  LET off == Len(e.data[1].s) - Len(e.state[1].s)
      ok == /\ \A i \in DOMAIN e.state : Allowed(Len(e.state[i].s), e.dims, 0)
            /\ \A i \in DOMAIN e.data : Allowed(Len(e.data[i].s), e.dims, off)
  IN Clause("refusal", e.raised = ~ ok)
     \cup IF e.raised \/ ~ ok THEN {} ELSE
          Clause("state-strided", SetOf(e.ostate) = Want(e.state, e, 0))
     \cup Clause("costate-strided", SetOf(e.ocostate) = Want(e.costate, e, 0))
     \cup Clause("data-strided", SetOf(e.odata) = Want(e.data, e, off))
     \cup Clause("input-unchanged", e.intact)
     \cup Clause("differentiable", e.grad)

Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Stride" -> StrideFails(e)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
