------------------------------- MODULE LoaderMC ------------------------------
EXTENDS Loader, TLC, Json, IOUtils, SequencesExt
\* replayed: opening iterators (ot oe ov), advancing the oldest (a) and the newest (z) open one, running all to their end (x), seeding anew (s)
Ops == {"ot", "oe", "ov", "a", "z", "x"}
Seqs == {<<o>> \o s : o \in {"ot", "oe", "ov"}, s \in [1..3 -> Ops]}
Full == {<<"ot", "x", "oe", "x", "ov", "x", "ot", "x">>, <<"ot", "ot", "a", "z", "z", "a", "x">>, <<"oe", "ov", "z", "a", "oe", "x", "ov", "x">>}
CaseSet == {[name |-> n, aug |-> g, ops |-> s] : n \in {"MNIST", "CIFAR10", "CIFAR100"}, g \in {0, 1}, s \in Seqs \cup Full}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
