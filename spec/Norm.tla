--------------------------------- MODULE Norm -------------------------------
(* The norm penalty: forgotten when a pass begins, set by the evaluation at time zero (if the pass has one), read after the
   pass. Trainable values are small integers; a pass from time t0 evaluates at t0 .. t0+2. *)
EXTENDS NormOps
CONSTANTS Values, Weights, Starts, MaxOps
VARIABLES theta, w, time, penalty, source, ops
nvars == <<theta, w, time, penalty, source, ops>>
NoPenalty == -1
NInit == theta \in Values /\ w \in Weights /\ time = 99 /\ penalty = NoPenalty /\ source = << >> /\ ops = 0
Train == time = 99 /\ ops < MaxOps /\ theta' \in Values /\ ops' = ops + 1 /\ UNCHANGED <<w, time, penalty, source>>
Begin == time = 99 /\ ops < MaxOps /\ time' \in Starts /\ penalty' = NoPenalty /\ source' = <<theta, time'>> /\ ops' = ops + 1 /\ UNCHANGED <<theta, w>>
\* during a pass the parameters move (theta + time since the start)
Eval == /\ time # 99
        /\ penalty' = IF time = 0 THEN Energy2(<<[w |-> w, v |-> <<theta + (time - source[2])>>]>>) ELSE penalty
        /\ time' = (IF time = source[2] + 2 THEN 99 ELSE time + 1) /\ UNCHANGED <<theta, w, source, ops>>
NNext == Train \/ Begin \/ Eval
NSpec == NInit /\ [][NNext]_nvars
LatestPass == time = 99 /\ source # << >> => IF source[2] = 0 THEN penalty = w * source[1] * source[1] ELSE penalty = NoPenalty
NonNegative == penalty >= NoPenalty
=============================================================================
