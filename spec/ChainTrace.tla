----------------------------- MODULE ChainTrace -----------------------------
(* Chains of real blocks, integrated over a vanishing time so that every entry stays recognisable. carried: the bundles the
   next block gets (name, and for each of states, costates, data the tensors by key). A step merges the block's own bundle
   (if it has one) in name order and concatenates along dimension dim (data: ddim). *)
EXTENDS TraceKit, Tensor
VARIABLES l, carried
\* bundles in name order: names are given with their rank
RECURSIVE Insert(_, _)
Insert(bs, b) == IF bs = << >> THEN <<b>> ELSE IF b.rank < bs[1].rank THEN <<b>> \o bs ELSE <<bs[1]>> \o Insert(Tail(bs), b)
NearTensor(a, b) == a.s = b.s /\ NearSeq(a.v, b.v, 0)
\* own data: zeros, shaped like the data except along the concatenation dimension
ZeroData(x, own, dim, ddim) == Zeros(WithDim(x.s, ddim, own.s[dim + 1]))
Joined(bs, part, k, d) == CatAll([i \in DOMAIN bs |-> bs[i][part][k]], d)
Merged(e, key) ==
  IF e.kind = "pass" THEN carried
  ELSE Insert(carried, [rank |-> e.rank, q |-> e.own.q, p |-> e.own.p,
                        x |-> [k \in DOMAIN e.own.q |-> ZeroData(carried[1].x[k], e.own.q[k], e.dim, e.ddim)]])
StepFails(e) ==
  LET bs == Merged(e, "") IN
  Clause("one-block-under-its-name", e.names = <<e.name, e.name, e.name>>)
  \cup Clause("states-joined-in-name-order", \A k \in DOMAIN e.out.q : NearTensor(e.out.q[k], Joined(bs, "q", k, e.dim)))
  \cup Clause("costates-joined-in-name-order", \A k \in DOMAIN e.out.p : NearTensor(e.out.p[k], Joined(bs, "p", k, e.dim)))
  \cup Clause("data-kept-and-zero-padded", \A k \in DOMAIN e.out.x : NearTensor(e.out.x[k], Joined(bs, "x", k, e.ddim)))
  \cup Clause("result-is-the-data", NearTensor(e.res, Joined(bs, "x", e.first, e.ddim)))
  \cup Clause("all-keys", DOMAIN e.out.q = DOMAIN bs[1].q /\ DOMAIN e.out.p = DOMAIN bs[1].p /\ DOMAIN e.out.x = DOMAIN bs[1].x)
  \cup Clause("every-time", e.times = e.wanted)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> {}
              [] e.ev = "Step" -> StepFails(e)
              [] e.ev = "Refused" -> Clause("name-used-twice-refused", \E i \in DOMAIN carried : carried[i].rank = e.rank)
              [] e.ev = "Pair" -> Clause(e.clause, NearSeq(e.a, e.b, e.tol))
              [] e.ev = "Reject" -> Clause(e.clause, e.raised)
              [] OTHER -> {"unknown-event"}
\* a step that should have been refused because of its name
TwiceFails(e) == IF e.ev = "Step" /\ \E i \in DOMAIN carried : carried[i].rank = e.rank THEN {"name-used-twice-refused"} ELSE {}
TraceInit == l = 1 /\ carried = << >>
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l]  tw == TwiceFails(e) IN
                   /\ Report(l, IF tw # {} THEN tw ELSE Fails(e))
                   /\ carried' = CASE e.ev = "Start" -> e.bundles
                                   [] e.ev = "Step" -> <<[rank |-> e.rank, q |-> e.out.q, p |-> e.out.p, x |-> e.out.x]>>
                                   [] OTHER -> carried
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED carried
TraceSpec == TraceInit /\ [][TraceNext]_<<l, carried>>
=============================================================================
