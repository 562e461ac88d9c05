-------------------------------- MODULE Inits -------------------------------
(* Initialisers draw from one random stream: a tensor made with noise takes the next, never used, part of it; zero and
   constant tensors take nothing. Seeding starts the stream of that seed again. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Seeds, Sizes, MaxOps
VARIABLES seed, pos, made, ops, log
ivars == <<seed, pos, made, ops, log>>
IInit == seed \in Seeds /\ pos = 0 /\ made = << >> /\ ops = 0 /\ log = << >>
Tick == ops < MaxOps /\ ops' = ops + 1
Noise(n) == Tick /\ made' = Append(made, [kind |-> "noise", part |-> {<<seed, pos + i>> : i \in 1..n}, n |-> n]) /\ pos' = pos + n
            /\ log' = Append(log, <<"noise", n>>) /\ UNCHANGED seed
Fixed(k, n) == Tick /\ made' = Append(made, [kind |-> k, part |-> {}, n |-> n]) /\ log' = Append(log, <<k, n>>) /\ UNCHANGED <<seed, pos>>
Seed(s) == Tick /\ seed' = s /\ pos' = 0 /\ made' = << >> /\ log' = << >>
INext == (\E n \in Sizes : Noise(n) \/ Fixed("zero", n) \/ Fixed("const", n)) \/ (\E s \in Seeds : Seed(s))
ISpec == IInit /\ [][INext]_ivars
Fresh == \A i, j \in DOMAIN made : i # j => made[i].part \cap made[j].part = {}
NoNoiseInFixed == \A i \in DOMAIN made : made[i].kind # "noise" => made[i].part = {}
\* what is drawn is determined by the seed and what was asked for before
RECURSIVE Before(_, _)
Before(k, lg) == IF k = 0 THEN 0 ELSE Before(k - 1, lg) + (IF lg[k][1] = "noise" THEN lg[k][2] ELSE 0)
Reproducible == \A i \in DOMAIN made : made[i].kind = "noise" => made[i].part = {<<seed, Before(i - 1, log) + j>> : j \in 1..made[i].n}
=============================================================================
