------------------------------- MODULE FlowMC -------------------------------
EXTENDS Flow, TLC, Json, IOUtils, SequencesExt
PlaceSet == -1..2
BatchSet == UNION {[1..k -> {-1, 0, 1}] : k \in 1..3}
\* batches of identities: 1, 2 are where particles 1 and 2 start, 3.. are other samples
Ids == 1..4
L == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
CaseSet == UNION {[1..k -> Ids] : k \in 1..L}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[ids |-> b] : b \in CaseSet}))
=============================================================================
