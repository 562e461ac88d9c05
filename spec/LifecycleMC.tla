----------------------------- MODULE LifecycleMC ----------------------------
EXTENDS Lifecycle, TLC, Json, IOUtils, SequencesExt
Owns == {<< >>, <<2>>, <<2, 4>>}
Pts(o) == {<< >>, <<[cur |-> [i \in DOMAIN o |-> 1], tgt |-> [i \in DOMAIN o |-> 3]]>>,
           <<[cur |-> [i \in DOMAIN o |-> 2], tgt |-> [i \in DOMAIN o |-> 2]], [cur |-> [i \in DOMAIN o |-> 1], tgt |-> [i \in DOMAIN o |-> 1 + i]]>>}
MCConfigs == UNION {{[own |-> o, pt |-> p, zero |-> z, free |-> f, sets |-> k, setsize |-> 5, layers |-> l] :
                     p \in Pts(o), z \in BOOLEAN, f \in BOOLEAN, k \in {1, 3}, l \in {<< >>, <<3, 7>>}} : o \in Owns}
Kinds == {"list", "forward", "other", "train", "convert", "load"}
CaseSet == {[ops |-> <<a, b, d>>] : a \in Kinds, b \in Kinds, d \in Kinds}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
