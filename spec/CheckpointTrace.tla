--------------------------- MODULE CheckpointTrace --------------------------
EXTENDS TraceKit, CheckOps
\* times are recorded in units of 1/100 of a model unit (one tick = 6000)
Q == 100
Unmarked(e, i, j) == ~ e.marks[i][j]
RECURSIVE Idx(_, _)
Idx(idx, m) == IF idx = << >> THEN << >> ELSE (IF Head(m) THEN <<Head(idx)>> ELSE << >>) \o Idx(Tail(idx), Tail(m))
RECURSIVE AllIdx(_, _)
AllIdx(is, ms) == IF is = << >> THEN << >> ELSE Idx(Head(is), Head(ms)) \o AllIdx(Tail(is), Tail(ms))
PartFails(e) ==
  LET C == Cps(e.t, e.by, e.v)
      n == Len(e.pieces)
      isCp(x) == \E k \in DOMAIN C : Near(x, Q * C[k], e.tol)
  IN Clause("pieces", n > 0 /\ Len(e.marks) = n /\ Len(e.idx) = n /\ \A i \in 1..n : Len(e.pieces[i]) >= 2 /\ Len(e.marks[i]) = Len(e.pieces[i]))
     \cup IF n = 0 \/ Len(e.marks) # n THEN {} ELSE
     Clause("requested-exactly-once", AllIdx(e.idx, e.marks) = [i \in 1..Len(e.t) |-> i])
     \cup Clause("share-end-points", e.chained)
     \cup Clause("monotone", e.monotone)
     \cup Clause("covers", /\ e.idx[1][1] = 1 /\ e.idx[n][Len(e.idx[n])] = Len(e.t))
     \cup Clause("checkpoints-are-boundaries", \A k \in DOMAIN C : k = 1 \/ \E i \in 1..n : Near(e.pieces[i][Len(e.pieces[i])], Q * C[k], e.tol))
     \cup Clause("nothing-else", \A i \in 1..n : \A j \in DOMAIN e.pieces[i] : Unmarked(e, i, j) => isCp(e.pieces[i][j]))
     \cup Clause("boundaries-are-checkpoints", \A i \in 1..n : isCp(e.pieces[i][Len(e.pieces[i])]))

\* values recorded in thousandths; unit steps
IntFails(e) ==
  LET ok == e.raised = FALSE
      w(i) == e.w[i]
  IN Clause("answers", ok) \cup IF ~ ok THEN {} ELSE
     Clause("one-value-per-time", Len(e.x) = Len(e.t))
     \cup IF Len(e.x) # Len(e.t) THEN {} ELSE
     Clause("values", \A i \in DOMAIN e.t : \A k \in 1..2 : Near(e.x[i][k], 1000 * At(e.t, i, e.x0, e.th, e.B, e.c, e.d).x[k], 2))
     \cup (IF e.grads THEN Clause("gradient-parameter", Near(e.gth, 1000 * GradTheta(e.t, e.w, e.x0, e.th, e.B, e.c, e.d), 5))
     \cup Clause("gradient-initial", \A k \in 1..2 : Near(e.gx[k], 1000 * GradX0(e.t, e.w, e.x0, e.th, e.B, e.c, e.d, k), 5)) ELSE {})

\* general functions and solvers: checkpointed (b) against direct (a), in units of 1e-6
PairFails(e) == Clause("transparent", Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : NearSeq(e.a[i], e.b[i], e.tol))

Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Partition" -> PartFails(e)
              [] e.ev = "Integrate" -> IntFails(e)
              [] e.ev = "Pair" -> PairFails(e)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
