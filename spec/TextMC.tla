------------------------------- MODULE TextMC -------------------------------
EXTENDS Text, TLC, Json, IOUtils, SequencesExt
ThoroughTier == IOEnv.TIER = "thorough"
\* all special characters, a letter, a blank
AlphaMC == Special \cup {97, 32}
LenMC == IF ThoroughTier THEN 4 ELSE 3
ItemCharsMC == {97, 59, 61}
ItemsMC == 3
Texts == UNION {[1..n -> AlphaMC] : n \in 0..LenMC}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[s |-> t] : t \in Texts}))
=============================================================================
