----------------------------- MODULE StridingMC -----------------------------
EXTENDS Striding, TLC, Json, IOUtils, SequencesExt
N == IF IOEnv.TIER = "thorough" THEN 9 ELSE 7
CaseSet == {[n |-> n, m |-> m, s |-> s, u |-> u, dims |-> d, extra |-> x] : n \in 1..N, m \in {1, 2, 5}, s \in 1..4, u \in {1, 3}, d \in {<<2>>, <<3>>, <<2, 3>>, <<3, 2>>}, x \in 0..1}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
