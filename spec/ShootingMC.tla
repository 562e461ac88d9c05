----------------------------- MODULE ShootingMC -----------------------------
EXTENDS Shooting, Json, IOUtils, SequencesExt
Deep == IOEnv.TIER = "thorough"
VecModels == {"Simple", "Debug", "SecondOrder", "UpDown", "Universal", "Periodic", "Dampened", "Symmetrized", "General"}
ConvModels == {"Conv", "UpDownConv", "ConvBatch"}
\* configurations to be replayed: model, nonlinearity, particles, dimension, size, inflation, weight, transposed, analytic, blocks
Analytic == {"Simple", "Debug", "UpDown", "Universal", "Periodic", "Dampened", "Symmetrized", "General"}
CaseSet ==
  {[model |-> mm, nl |-> f, n |-> n, d |-> dd[1], f |-> dd[2], infl |-> dd[3], w |-> w, tr |-> tr, blocks |-> b]
     : mm \in VecModels, f \in Names, n \in (IF Deep THEN {1, 2, 3, 5} ELSE {1, 3}),
       dd \in (IF Deep THEN {<<1, 2, 2>>, <<2, 2, 1>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 2>>} ELSE {<<1, 2, 2>>, <<2, 2, 1>>}),
       w \in {0, 1, 2}, tr \in {FALSE}, b \in {1}}
  \cup {[model |-> mm, nl |-> f, n |-> 2, d |-> dd[1], f |-> dd[2], infl |-> dd[3], w |-> w, tr |-> tr, blocks |-> b]
     : mm \in VecModels, f \in {"identity", "tanh"}, dd \in {<<2, 2, 2>>}, w \in {0, 2}, tr \in BOOLEAN, b \in {1, 2}}
  \cup {[model |-> mm, nl |-> f, n |-> n, d |-> dd[1], f |-> dd[2], infl |-> dd[3], w |-> w, tr |-> FALSE, blocks |-> b]
     : mm \in ConvModels, f \in Names, n \in {1, 2}, dd \in (IF Deep THEN {<<1, 3, 2>>, <<2, 2, 1>>, <<2, 3, 2>>} ELSE {<<1, 3, 2>>, <<2, 2, 1>>}), w \in {0, 2}, b \in {1, 2}}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
Ident == {"identity"}
Both == {"identity", "relu"}
=============================================================================
