---------------------------- MODULE ExperimentMC ----------------------------
EXTENDS Experiment, TLC, Json, IOUtils, SequencesExt
ThoroughTier == IOEnv.TIER = "thorough"
SeedsMC == 1..2
CombosMC == 1..2
SweepsMC == IF ThoroughTier THEN 3 ELSE 2
\* one sweep of a history: first seed, number of seeds, which values, forced, and after how many runs it is killed (0: not)
One == [start : 0..1, n : 0..2, vals : {<<1>>, <<1, 2>>, <<2, 3>>, <<3, 1, 2>>}, forced : BOOLEAN, kill : 0..2]
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({<<a>> : a \in One} \cup {<<a, b>> : a \in One, b \in One}))
=============================================================================
