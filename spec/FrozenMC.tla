------------------------------- MODULE FrozenMC -----------------------------
EXTENDS Frozen, TLC, Json, IOUtils, SequencesExt
Kinds == {"pass", "train", "abort", "times", "batch", "chain", "swap"}
Seqs == {<<a, b>> : a \in Kinds, b \in Kinds} \cup {<<a, b, c>> : a \in Kinds, b \in Kinds, c \in Kinds}
CaseSet == {[ops |-> s] : s \in Seqs}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
