----------------------------- MODULE DictsTrace -----------------------------
EXTENDS TraceKit, Tensor

SetOf(seq) == {seq[i] : i \in DOMAIN seq}
\* blocks: sequence of [b, t] with t a sequence of [k, s, v]
Entries(blocks) == UNION {{[b |-> blocks[i].b, k |-> blocks[i].t[j].k, s |-> blocks[i].t[j].s, v |-> blocks[i].t[j].v] : j \in DOMAIN blocks[i].t} : i \in DOMAIN blocks}
NamesOf(blocks) == {blocks[i].b : i \in DOMAIN blocks}
KeysOf(t) == {t[j].k : j \in DOMAIN t}
Get(t, k) == LET j == CHOOSE j \in DOMAIN t : t[j].k = k IN [s |-> t[j].s, v |-> t[j].v]

MergeFails(e) ==
  LET taken == e.name \in NamesOf(e.before) IN
     Clause("taken-name-refused", taken = e.raised)
\cup IF e.raised \/ taken THEN {} ELSE
     Clause("merge-is-union", Entries(e.out) = Entries(e.before) \cup Entries(e.add))
\cup Clause("merge-names", NamesOf(e.out) = NamesOf(e.before) \cup NamesOf(e.add))
\cup Clause("merge-leaves-input", Entries(e.after) = Entries(e.before) /\ Entries(e.isolated) = Entries(e.before))

\* blocks in iteration order; all have the same keys
ConcatOk(blocks, d) == \A k \in KeysOf(blocks[1].t) : \A i \in DOMAIN blocks :
                           CatOk(Get(blocks[1].t, k).s, Get(blocks[i].t, k).s, d)
Joined(blocks, k, d) == CatAll([i \in DOMAIN blocks |-> Get(blocks[i].t, k)], d)
ConcatFails(e) ==
  LET ok == ConcatOk(e.blocks, e.dim) IN
     Clause("concat-refuses-misfit", ok = (~ e.raised))
\cup IF e.raised \/ ~ ok THEN {} ELSE
     Clause("concat-keys", KeysOf(e.out) = KeysOf(e.blocks[1].t))
\cup IF KeysOf(e.out) # KeysOf(e.blocks[1].t) THEN {} ELSE
     Clause("concat-values", \A k \in KeysOf(e.out) : Get(e.out, k) = Joined(e.blocks, k, e.dim))
SplitFails(e) == Clause("split-inverts-concat", ~ e.raised /\ Entries(e.parts) = Entries(e.blocks))
NamedFails(e) == Clause("named-concat", Len(e.named) = 1 /\ e.named[1].b = e.name
                          /\ SetOf(e.named[1].t) = SetOf(e.out))

\* zero data for new states: data shape, concatenation dimension from the state
ZeroFails(e) ==
     Clause("zero-keys", KeysOf(e.out) = KeysOf(e.state))
\cup Clause("zero-values", \A i \in DOMAIN e.out : \A j \in DOMAIN e.out[i].v : e.out[i].v[j] = 0)
\cup IF KeysOf(e.out) # KeysOf(e.state) THEN {} ELSE
     Clause("zero-shape", \A k \in KeysOf(e.out) : Get(e.out, k).s = WithDim(e.datashape, e.ddim, Get(e.state, k).s[e.sdim + 1]))

DimFails(e) ==
  LET diff == e.nd - e.ns IN
     Clause("data-rank-refused", e.raised = (diff < 0))
\cup Clause("data-dim", e.raised \/ e.out = e.dim + diff)

LikeFails(e) ==
     Clause("like-shape", e.shapes = e.expect) \cup Clause("like-zero", e.zero)

PickFails(e) ==
     Clause("extract-key", IF Len(e.blocks) = 1
        THEN Len(e.out) = 1 /\ [s |-> e.out[1].s, v |-> e.out[1].v] = Get(e.blocks[1].t, e.key)
        ELSE /\ {[b |-> x.b, s |-> x.s, v |-> x.v] : x \in SetOf(e.out)}
                = {[b |-> e.blocks[i].b, s |-> Get(e.blocks[i].t, e.key).s, v |-> Get(e.blocks[i].t, e.key).v] : i \in {i \in DOMAIN e.blocks : e.key \in KeysOf(e.blocks[i].t)}})

Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Merge" -> MergeFails(e)
              [] e.ev = "Concat" -> ConcatFails(e)
              [] e.ev = "Split" -> SplitFails(e)
              [] e.ev = "Named" -> NamedFails(e)
              [] e.ev = "Zero" -> ZeroFails(e)
              [] e.ev = "Dim" -> DimFails(e)
              [] e.ev = "Like" -> LikeFails(e)
              [] e.ev = "Pick" -> PickFails(e)
              [] e.ev = "Reject" -> Clause("refused", e.raised)
              [] OTHER -> {"unknown-event"}

VARIABLE l
TraceInit == l = 1
TraceNext == \/ /\ l <= NEvents /\ Report(l, Fails(Trace[l])) /\ l' = l + 1
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
