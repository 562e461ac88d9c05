-------------------------------- MODULE NormMC ------------------------------
EXTENDS Norm, TLC, Json, IOUtils, SequencesExt
Kinds == {"pass", "train", "shift", "vector", "end", "weights"}
CaseSet == {[ops |-> <<a, b>>] : a \in Kinds, b \in Kinds} \cup {[ops |-> <<a, b, c>>] : a \in Kinds, b \in Kinds, c \in Kinds}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
