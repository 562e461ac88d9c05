------------------------------- MODULE HooksMC ------------------------------
EXTENDS Hooks, TLC, Json, IOUtils, SequencesExt
\* replayed histories: r1 r2 register hook 1/2, d1 d2 remove the first/last live registration, c new custom data, e evaluate once, f forward pass
Ops == {"r1", "r2", "d1", "d2", "c", "e", "f"}
Core(n) == [1..n -> Ops]
CaseSet == Core(3) \cup (IF IOEnv.TIER = "thorough" THEN Core(4) ELSE {c \in Core(4) : c[1] \in {"r1", "r2"} /\ c[4] \in {"e", "f"} /\ c[2] # c[3]})
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[ops |-> c] : c \in CaseSet}))
=============================================================================
