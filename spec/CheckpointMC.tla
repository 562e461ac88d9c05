---------------------------- MODULE CheckpointMC ----------------------------
EXTENDS Checkpoint, TLC, Json, IOUtils, SequencesExt
MT == IF IOEnv.TIER = "thorough" THEN 6 ELSE 4
Ivs == {30, 45, 60, 90, 120, 180, 300, 900}
CaseSet == {[t |-> x, by |-> "number", v |-> n] : x \in Lists, n \in 1..5} \cup {[t |-> x, by |-> "interval", v |-> n] : x \in Lists, n \in Ivs}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
