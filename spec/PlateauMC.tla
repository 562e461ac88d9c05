----------------------------- MODULE PlateauMC ------------------------------
EXTENDS Plateau, TLC, Json, IOUtils, SequencesExt
Deep == IOEnv.TIER = "thorough"
Rates == {[lr |-> <<1024>>, min |-> <<0>>, eps |-> 0], [lr |-> <<1024, 256>>, min |-> <<256, 100>>, eps |-> 0], [lr |-> <<1024, 4>>, min |-> <<0, 0>>, eps |-> 3], [lr |-> <<64, 512>>, min |-> <<128, 0>>, eps |-> 100]}
\* unit small enough that no division has a remainder
Fine == 4096
Base == {[mode |-> md, thmode |-> tm, th |-> th, patience |-> p, cooldown |-> cd] : md \in {"min", "max"}, tm \in {"rel", "abs"}, th \in {0, 1}, p \in 0..2, cd \in 0..2}
With(b, r, f) == [mode |-> b.mode, thmode |-> b.thmode, th |-> b.th, patience |-> b.patience, cooldown |-> b.cooldown, num |-> f[1], den |-> f[2], lr |-> [i \in DOMAIN r.lr |-> Fine * r.lr[i]], min |-> [i \in DOMAIN r.min |-> Fine * r.min[i]], eps |-> Fine * r.eps]
AllConfigs == {With(b, r, f) : b \in Base, r \in Rates, f \in {<<1, 2>>, <<1, 4>>, <<0, 1>>}}
ConfigsMC == {With(b, r, <<1, 2>>) : b \in {x \in Base : x.mode = "min" \/ x.th = 1}, r \in {x \in Rates : Len(x.lr) = 2}}
MetricsMC == IF Deep THEN {-4, 0, 3, 4, 99999} ELSE {-4, 3, 4}
LenMC == IF Deep THEN 6 ELSE 5
Seqs == [1..7 -> {-4, 0, 3, 4}]
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[c |-> x] : x \in AllConfigs}))
=============================================================================
