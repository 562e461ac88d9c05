-------------------------------- MODULE Frozen ------------------------------
(* Where the parameters of an evaluation come from. "frozen": computed from the particles at the first evaluation of a pass
   and cached until the pass ends. "own": trainable sets of the block, one per piece of time. Versions stand for values:
   a training step gives the particles (and the own sets) a new version; during a pass the particles move with the step. *)
EXTENDS Integers, Sequences
CONSTANTS Modes, Pieces, EvalsPerPass, MaxOps
VARIABLES mode, trained, cache, step, used, hist
fvars == <<mode, trained, cache, step, used, hist>>
None == <<"none">>
Particles == <<"particles", trained, step>>
FInit == mode \in Modes /\ trained = 0 /\ cache = None /\ step = -1 /\ used = << >> /\ hist = << >>
Idle == step = -1
Op(o) == Idle /\ Len(hist) < MaxOps /\ hist' = Append(hist, o)
Train == Op("train") /\ trained' = trained + 1 /\ UNCHANGED <<mode, cache, step, used>>
Begin == Op("pass") /\ step' = 0 /\ cache' = None /\ used' = << >> /\ UNCHANGED <<mode, trained>>
PieceAt(s) == (s * Pieces) \div EvalsPerPass
Source == IF mode = "own" THEN <<"set", trained, PieceAt(step)>> ELSE IF cache = None THEN Particles ELSE cache
Eval == /\ step \in 0..(EvalsPerPass - 1) /\ used' = Append(used, Source)
        /\ cache' = IF mode = "own" THEN cache ELSE Source
        /\ step' = (IF step = EvalsPerPass - 1 THEN -1 ELSE step + 1) /\ UNCHANGED <<mode, trained, hist>>
\* a pass may be given up at any evaluation (an exception); the next pass starts afresh
Abort == step >= 1 /\ step' = -1 /\ used' = << >> /\ UNCHANGED <<mode, trained, cache, hist>>
FNext == Train \/ Begin \/ Eval \/ Abort
FSpec == FInit /\ [][FNext]_fvars
FrozenDuringPass == mode = "frozen" => \A i \in DOMAIN used : used[i] = used[1]
FromInitialParticles == mode = "frozen" /\ ~Idle /\ used # << >> => used[1] = <<"particles", trained, 0>>
OwnSetOfPiece == mode = "own" /\ ~Idle => \A i \in DOMAIN used : used[i] = <<"set", trained, PieceAt(i - 1)>>
=============================================================================
