------------------------------- MODULE Seeding ------------------------------
(* Random numbers of a run: Python's, numpy's and torch's generator. Seeding sets all three; -1 leaves them alone. A draw of some
   kind advances the generators it uses. What is drawn is a function of the seed and of the draws since the last seeding, whatever
   happened before. hidden stands for the state an unseeded process starts in. *)
EXTENDS Integers, Sequences
CONSTANTS Seeds, Hidden, Kinds, Uses(_), MaxOps
VARIABLES gen, key, drawn, ops
svars == <<gen, key, drawn, ops>>
Gens == {"python", "numpy", "torch"}
SInit == \E h \in Hidden : gen = [g \in Gens |-> <<h, 0>>] /\ key = <<"unseeded", h>> /\ drawn = << >> /\ ops = 0
Setup(s) == /\ gen' = (IF s = -1 THEN gen ELSE [g \in Gens |-> <<s, 0>>]) /\ key' = (IF s = -1 THEN key ELSE <<"seeded", s>>)
            /\ UNCHANGED drawn
Draw(k) == /\ gen' = [g \in Gens |-> IF g \in Uses(k) THEN <<gen[g][1], gen[g][2] + 1>> ELSE gen[g]]
           /\ drawn' = Append(drawn, [key |-> key, kind |-> k, value |-> [g \in Uses(k) |-> gen[g]]])
           /\ key' = Append(key, k)
SNext == /\ ops < MaxOps /\ ops' = ops + 1
         /\ (\E s \in Seeds \cup {-1} : Setup(s)) \/ (\E k \in Kinds : Draw(k))
SSpec == SInit /\ [][SNext]_svars
\* the same seed and the same draws since give the same values
Reproducible == \A i \in DOMAIN drawn, j \in DOMAIN drawn : drawn[i].key = drawn[j].key /\ drawn[i].kind = drawn[j].kind => drawn[i].value = drawn[j].value
\* another seed, or another draw of the same kind under the same seed, gives other values
\* a draw of this kind has been made under key a, and b is a later key of the same run
Before(a, b, k) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a) + 1) = Append(a, k)
Fresh == \A i \in DOMAIN drawn, j \in DOMAIN drawn : i # j /\ drawn[i].kind = drawn[j].kind /\ drawn[i].value = drawn[j].value
            => /\ drawn[i].key[2] = drawn[j].key[2] /\ drawn[i].key[1] = drawn[j].key[1]
               /\ ~Before(drawn[i].key, drawn[j].key, drawn[i].kind)
=============================================================================
