------------------------------ MODULE FreezeMC ------------------------------
EXTENDS Freeze, TLC, Json, IOUtils, SequencesExt
SizeMC(p) == p * p + 1
N == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Ops == {[op |-> k, names |-> SetToSeq(S)] : k \in {"freeze", "unfreeze"}, S \in SUBSET (1..N)}
CaseSet == {<<a>> : a \in Ops} \cup {<<a, b>> : a \in Ops, b \in Ops} \cup (IF N = 3 THEN {<<a, b, c>> : a \in Ops, b \in Ops, c \in Ops} ELSE {})
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[ops |-> c] : c \in CaseSet}))
ParamsMC == 1..N
=============================================================================
