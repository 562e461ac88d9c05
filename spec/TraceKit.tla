------------------------------ MODULE TraceKit ------------------------------
(* Common part of the trace specifications: the recorded events and the total verdict on each of them.
   Every event is consumed; an event the specification does not explain is reported with the failing clause. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)

Report(i, fails) == \A c \in fails : PrintT("REJECT " \o ToString(i) \o " " \o c)
Done == PrintT("TRACE-CONSUMED " \o ToString(NEvents))

Clause(name, holds) == IF holds THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
SameLen(a, b) == Len(a) = Len(b)
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Has(e, f) == f \in DOMAIN e
=============================================================================
