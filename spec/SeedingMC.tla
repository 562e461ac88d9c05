------------------------------ MODULE SeedingMC -----------------------------
EXTENDS Seeding, FiniteSets, TLC, Json, IOUtils, SequencesExt
AllKinds == {"py", "np", "torch", "both"}
UsesOf(k) == CASE k = "py" -> {"python"} [] k = "np" -> {"numpy"} [] k = "torch" -> {"torch"} [] OTHER -> {"python", "torch"}
\* histories: a seed, draws, the same or another seed, the same draws, with -1 and other draws in between
RealKinds == {"py", "np", "torch", "init", "block", "pass", "train", "network", "enlarge", "batch"}
D == {<<a>> : a \in RealKinds} \cup {<<a, b>> : a \in RealKinds, b \in RealKinds}
CaseSet == {[first |-> s, again |-> t, draws |-> d, keep |-> k, noise |-> n]
              : s \in {-1, 0, 1, 1234}, t \in {-1, 0, 1, 1234}, d \in D, k \in {0, 1}, n \in {0, 1}}
Picked == {c \in CaseSet : (c.first = c.again) \/ (c.keep = 0 /\ c.first = 1)}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Picked))
=============================================================================
