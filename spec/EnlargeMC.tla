------------------------------ MODULE EnlargeMC -----------------------------
EXTENDS Enlarge, TLC, Json, IOUtils, SequencesExt
MCShapes == {<<n, c, h>> : n \in 1..3, c \in 1..2, h \in 1..4} \cup {<<n, 2, h, w>> : n \in 1..2, h \in 1..3, w \in 1..3}
Small == IF IOEnv.TIER = "thorough" THEN 1..4 ELSE 1..3
\* own particle number and image size, and how much smaller what is passed through is
CaseSet == {[n |-> n, h |-> h, w |-> w, dn |-> a, dh |-> b, dw |-> c] : n \in Small, h \in Small, w \in Small, a \in 0..2, b \in 0..3, c \in 0..3}
Possible == {k \in CaseSet : k.dn < k.n /\ k.dh < k.h /\ k.dw < k.w}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Possible))
=============================================================================
