------------------------------- MODULE ChainMC ------------------------------
EXTENDS Chain, TLC, Json, IOUtils, SequencesExt
Steps == {[nm |-> n, kind |-> k, size |-> z] : n \in {"a", "m", "z"}, k \in {"own", "pass"}, z \in {1, 2}}
Useful == {s \in Steps : s.kind = "pass" => s.size = 1}
Starts == {<<"a">>, <<"m">>, <<"z">>, <<"a", "z">>, <<"a", "m">>}
CaseSet == {[start |-> st, steps |-> <<x>>] : st \in Starts, x \in Useful} \cup {[start |-> st, steps |-> <<x, y>>] : st \in Starts, x \in Useful, y \in Useful}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
