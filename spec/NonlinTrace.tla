----------------------------- MODULE NonlinTrace ----------------------------
EXTENDS TraceKit, Nonlin
\* far out the functions are flat or straight
VFar(nl, k) == CASE nl \in {"identity"} -> NDiv(k * 1000, 8) * 30
                 [] nl \in {"relu", "softmax"} -> IF k > 0 THEN NDiv(k * 1000, 8) * 30 ELSE 0
                 [] nl = "tanh" -> IF k > 0 THEN NT ELSE -NT
                 [] nl = "sigmoid" -> IF k > 0 THEN NT ELSE 0
DFar(nl, k) == CASE nl = "identity" -> NT
                 [] nl \in {"relu", "softmax"} -> IF k > 0 THEN NT ELSE 0
                 [] nl \in {"tanh", "sigmoid"} -> 0
V(nl, k) == IF Abs(k) <= 96 THEN Val(nl, k) ELSE VFar(nl, k)
D(nl, k) == IF Abs(k) <= 96 THEN Der(nl, k) ELSE DFar(nl, k)
\* a tensor of grid points: values and derivatives entry by entry, same shape and type
TensorFails(e) ==
  Clause("shape", e.vshape = e.shape /\ e.dshape = e.shape)
  \cup Clause("type", e.vtype = e.type /\ e.dtype = e.type)
  \cup Clause("input-unchanged", e.intact)
  \cup Clause("value", Len(e.v) = Len(e.k) /\ \A i \in DOMAIN e.k : i \in DOMAIN e.v /\ Near(e.v[i], V(e.nl, e.k[i]), e.tol))
  \cup Clause("derivative", Len(e.d) = Len(e.k) /\ \A i \in DOMAIN e.k : Differentiable(e.nl, e.k[i]) => i \in DOMAIN e.d /\ Near(e.d[i], D(e.nl, e.k[i]), e.tol))
\* between grid points: difference quotient over a short interval against the reported derivative (units 1e-6), and
\* the value inside the bracket of the grid
SecantFails(e) ==
  Clause("derivative-between", Near(e.fb - e.fa, (e.d \div 1000) * (e.h \div 1000), 60))
  \cup Clause("value-between", Near(e.v, (V(e.nl, e.k) * (8 - e.r) + V(e.nl, e.k + 1) * e.r) \div 8, 120))
\* far out: from k steps to k + 1 steps the derivative (value) falls by the factor e; steps are 1/2 for tanh
Decay == 367879
TailFails(e) == Clause("tail", Near(e.ratio, IF e.nl # "softmax" THEN Decay
                                             ELSE IF e.what = "v" THEN (Decay * (e.k + 1)) \div e.k ELSE (Decay * e.k) \div (e.k - 1), e.tol))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Tensor" -> TensorFails(e)
              [] e.ev = "Tail" -> TailFails(e)
              [] e.ev = "Secant" -> SecantFails(e)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
