---------------------------- MODULE IntegratorsMC ---------------------------
EXTENDS Integrators, TLC, Json, IOUtils, SequencesExt
Objs == {1, 2}
Dflts == {None, 12, 24}
StepSet == {6, 18}
Ms == {"euler", "midpoint", "rk4", "dopri5"}
M1 == [m : Ms, o : Objs \cup {None}, d : Dflts]
CaseSet == {[c1 |-> a, c2 |-> None, made |-> <<x, y>>] : a \in StepSet \cup {None}, x \in M1, y \in M1}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
