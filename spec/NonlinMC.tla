------------------------------ MODULE NonlinMC ------------------------------
(* The table of nonlinearities walked from left to right: the derivative entries are the derivatives of the value entries
   (Simpson's rule between neighbours), and the known identities hold. *)
EXTENDS Nonlin, Json, IOUtils, SequencesExt
VARIABLES nl, k
nvars == <<nl, k>>
NInit == nl \in Names /\ k = -94
NNext == k < 94 /\ k' = k + 1 /\ nl' = nl
NSpec == NInit /\ [][NNext]_nvars
AbsN(x) == IF x < 0 THEN -x ELSE x
NearN(a, b, t) == AbsN(a - b) <= t
DerivativeIsDerivative == (nl # "relu" \/ AbsN(k) > 1) =>
   NearN(24 * (Val(nl, k + 1) - Val(nl, k - 1)), Der(nl, k - 1) + 4 * Der(nl, k) + Der(nl, k + 1), IF nl = "softmax" THEN 900 ELSE 150)
TanhFromSigmoid == nl = "tanh" /\ AbsN(2 * k) <= 96 => NearN(TanhTab[k], 2 * SigmTab[2 * k] - NT, 20)
ExpRule == k >= 0 => NearN(ExpTab[k + 1] * NT, ExpTab[k] * 26475, 40000)      \* exp(-1/8) = 0.88249690
Ranges == /\ nl = "sigmoid" => Val(nl, k) \in 0..NT
          /\ nl = "tanh" => Val(nl, k) \in (-NT)..NT
          /\ nl \in {"tanh", "sigmoid", "identity", "relu"} => Val(nl, k + 1) >= Val(nl, k)
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[nl |-> n, k |-> kk] : n \in Names, kk \in -94..94}))
=============================================================================
