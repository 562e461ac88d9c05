---------------------------- MODULE FlattenTrace ----------------------------
(* Judges recorded flatten/unflatten calls of the real code. Entries are records [b, k, s, v]. *)
EXTENDS TraceKit, Tensor

SetOf(seq) == {seq[i] : i \in DOMAIN seq}
RECURSIVE SumNumel(_)
SumNumel(seq) == IF seq = <<>> THEN 0 ELSE Numel(Head(seq).s) + SumNumel(Tail(seq))

\* rows: the entries packed for time r; expected unpacking with a leading time dimension
TimeEntry(rows, i) ==
  LET e == rows[1][i] n == Numel(e.s) IN
  [b |-> e.b, k |-> e.k, s |-> <<Len(rows)>> \o e.s,
   v |-> [j \in 1..(Len(rows) * n) |-> rows[((j - 1) \div n) + 1][i].v[((j - 1) % n) + 1]]]

RoundTripFails(e) ==
     Clause("vector-length", e.len = SumNumel(e.in.state) + SumNumel(e.in.costate) + SumNumel(e.in.data))
\cup Clause("state-recovered", SetOf(e.out.state) = SetOf(e.in.state))
\cup Clause("costate-recovered", SetOf(e.out.costate) = SetOf(e.in.costate))
\cup Clause("data-recovered", SetOf(e.out.data) = SetOf(e.in.data))
\cup Clause("differentiable", e.grad)
\cup Clause("type-kept", e.dtype)
\cup Clause("no-duplicates", Cardinality(SetOf(e.out.state)) = Len(e.out.state))

Expect(rows, g) == {TimeEntry([r \in 1..Len(rows) |-> rows[r][g]], i) : i \in DOMAIN rows[1][g]}
StackFails(e) ==
     Clause("state-recovered-in-time", SetOf(e.out.state) = Expect(e.rows, "state"))
\cup Clause("costate-recovered-in-time", SetOf(e.out.costate) = Expect(e.rows, "costate"))
\cup Clause("data-recovered-in-time", SetOf(e.out.data) = Expect(e.rows, "data"))

\* dictionary <-> tuple conversions used to hand variables to autograd
TupleFails(e) ==
     Clause("tuple-length", e.n = Len(e.in))
\cup Clause("tuple-recovered", SetOf(e.out) = SetOf(e.in))

\* large entries (value of position a: a modulo 4099)
LargeFails(e) == Clause("vector-length", e.len = e.sizes[1] + e.sizes[2] + e.sizes[3]) \cup Clause("sizes-recovered", e.out = e.sizes)
                 \cup Clause("values-recovered", \A i \in DOMAIN e.at : e.values[i] = e.at[i] % 4099) \cup Clause("starts-recovered", \A i \in DOMAIN e.first : e.first[i] = 0)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "RoundTrip" -> RoundTripFails(e)
              [] e.ev = "Stack" -> StackFails(e)
              [] e.ev = "Large" -> LargeFails(e)
              [] e.ev = "Tuple" -> TupleFails(e)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}

VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
