-------------------------------- MODULE Flow --------------------------------
(* Particles and a batch of data are advanced together. The map of a step is determined by the particles (here: an affine
   map with integer coefficients computed from them); data only undergoes it. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Places, Batches, Steps
VARIABLES start, parts, batch, data, n
fvars == <<start, parts, batch, data, n>>
\* coefficients from the particles only
A(ps) == ps[1] - ps[2]
Bc(ps) == ps[1] + ps[2]
Adv(x, ps) == x + A(ps) * x + Bc(ps)
FInit == /\ start \in [1..2 -> Places] /\ parts = start
         /\ batch \in Batches /\ data = batch /\ n = 0
Step == /\ n < Steps /\ n' = n + 1
        /\ parts' = [i \in 1..2 |-> Adv(parts[i], parts)]
        /\ data' = [j \in DOMAIN data |-> Adv(data[j], parts)]
        /\ UNCHANGED <<start, batch>>
FSpec == FInit /\ [][Step]_fvars
\* design properties
FollowsParticle == \A i \in 1..2 : \A j \in DOMAIN batch : batch[j] = start[i] => data[j] = parts[i]
SamePlaceSameFate == \A j \in DOMAIN batch : \A k \in DOMAIN batch : batch[j] = batch[k] => data[j] = data[k]
RECURSIVE PartsAt(_, _)
PartsAt(s, k) == IF k = 0 THEN s ELSE LET p == PartsAt(s, k - 1) IN [i \in 1..2 |-> Adv(p[i], p)]
RECURSIVE Alone(_, _, _)
Alone(x, s, k) == IF k = 0 THEN x ELSE Adv(Alone(x, s, k - 1), PartsAt(s, k - 1))
Independent == \A j \in DOMAIN batch : data[j] = Alone(batch[j], start, n)
ParticlesIgnoreData == parts = PartsAt(start, n)
=============================================================================
