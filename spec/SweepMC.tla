------------------------------- MODULE SweepMC ------------------------------
EXTENDS Sweep, TLC, Json, IOUtils, SequencesExt
KeysMC == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
ValsMC == 3
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[lens |-> t] : t \in Tables}))
=============================================================================
