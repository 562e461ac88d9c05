------------------------------- MODULE LookupMC -----------------------------
EXTENDS Lookup, TLC, Json, IOUtils, SequencesExt
Seqs(k) == LET R == -1..(k * 2 + 1) IN {<<a, b, c>> : a \in R, b \in R, c \in R}
CaseSet == {[K |-> 2, us |-> s] : s \in Seqs(2)} \cup {[K |-> 4, us |-> s] : s \in Seqs(4)}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
