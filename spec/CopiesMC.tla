------------------------------- MODULE CopiesMC -----------------------------
EXTENDS Copies, TLC, Json, IOUtils, SequencesExt
Op(n, a, b) == [op |-> n, a |-> a, b |-> b]
Alphabet == {Op(n, a, 0) : n \in {"train", "step", "time", "save"}, a \in {1, 2}} \cup {Op("load", 0, b) : b \in {1, 2}}
            \cup {Op(n, a, 3 - a) : n \in {"copy", "restore"}, a \in {1, 2}} \cup {Op("copy", 1, 1)}
\* histories in which something is copied, and every file is written before it is read
Copying(h) == \E i \in DOMAIN h : h[i].op \in {"copy", "restore", "load"}
Written(h) == \A i \in DOMAIN h : h[i].op = "load" => \E j \in 1..i - 1 : h[j].op = "save"
Changing(h) == \E i \in DOMAIN h : h[i].op \in {"train", "step", "time"}
Seqs(n) == [1..n -> Alphabet]
CaseSet == {[ops |-> h] : h \in {s \in Seqs(3) \cup Seqs(2) : Copying(s) /\ Written(s) /\ Changing(s)}}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
