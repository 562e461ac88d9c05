------------------------------- MODULE NormOps ------------------------------
(* Kinetic energy in integer arithmetic: entries scaled by S, weights rational [num, den] with common denominator D. *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumTo(F, n - 1)
Sum(F) == SumTo(F, Len(F))
Abs_(x) == IF x < 0 THEN -x ELSE x
\* a parameter set: sequence of entries [w |-> weight * D, v |-> flat values * S]
EntryEnergy(en) == en.w * Sum([i \in DOMAIN en.v |-> en.v[i] * en.v[i]])
\* 2 * D * S^2 * energy
Energy2(set) == Sum([k \in DOMAIN set |-> EntryEnergy(set[k])])
\* rounding slack of Energy2 when the entries are rounded to integers
Slack(set) == Sum([k \in DOMAIN set |-> set[k].w * Sum([i \in DOMAIN set[k].v |-> Abs_(set[k].v[i]) + 1])])
\* average over the sets: 2 * D * S^2 * energy, times the number of sets
EnergyOfSets(sets) == Sum([k \in DOMAIN sets |-> Energy2(sets[k])])
SlackOfSets(sets) == Sum([k \in DOMAIN sets |-> Slack(sets[k])])
=============================================================================
