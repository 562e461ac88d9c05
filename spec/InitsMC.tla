------------------------------- MODULE InitsMC ------------------------------
EXTENDS Inits, TLC, Json, IOUtils, SequencesExt
\* what to make: through which call, with which content
Calls == {[call |-> c, what |-> w] : c \in {"create", "like", "size"}, w \in {"noise", "zero", "const", "const0"}}
Kinds == {"Vector", "VectorBatch", "Conv", "ConvBatch"}
CaseSet == {[kind |-> k, ops |-> <<a, b, c>>] : k \in Kinds, a \in Calls, b \in Calls, c \in {x \in Calls : x.what \in {"noise", "zero"}}}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
