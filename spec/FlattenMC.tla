----------------------------- MODULE FlattenMC ------------------------------
EXTENDS Flatten, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
ShapesC == {<<1>>, <<2, 1, 3>>}
\* The cases replayed into the implementation: every set of entries of these sizes in which all three groups occur.
Sizes == IF IOEnv.TIER = "thorough" THEN {3, 4, 5} ELSE {3, 4}
CaseSets == {es \in UNION {kSubset(n, Entry) : n \in Sizes} : Functional(es) /\ {e.g : e \in es} = Groups}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[entries |-> SetToSeq(es)] : es \in CaseSets}))
=============================================================================
