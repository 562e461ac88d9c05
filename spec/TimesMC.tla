------------------------------- MODULE TimesMC ------------------------------
EXTENDS Times, TLC, Json, IOUtils, SequencesExt
Vecs == {<<0, 2, 4>>, <<0, 3>>, <<0, 1, 2, 6>>, <<1, 3, 4>>, <<4, 2, 0>>}
EndSet == {2, 4, 6}
Convs == {"to", "double", "cpu"}
Short == {<<a>> : a \in Ops} \cup {<<a, b>> : a \in Ops, b \in Ops} \cup {<<a, b, c>> : a \in Ops, b \in Ops, c \in Ops}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[ops |-> s] : s \in Short}))
=============================================================================
