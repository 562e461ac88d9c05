------------------------------ MODULE FiguresMC ------------------------------
EXTENDS Figures, TLC, Json, IOUtils, SequencesExt
Kinds == {"temporal", "basic", "evolution"}
Modes == {"none", "show", "save", "both", "neither"}
Calls == {k \o ":" \o m : k \in Kinds, m \in Modes}
CaseSet == {<<a>> : a \in Calls} \cup {<<a, b>> : a \in Calls, b \in Calls}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[calls |-> c] : c \in CaseSet}))
=============================================================================
