------------------------------- MODULE Nonlin -------------------------------
(* The nonlinearities and their derivatives on the grid of multiples of 1/8, in fixed point with NT units per 1.
   The table of exp(-k/8) is given; NonlinMC checks it. *)
EXTENDS Integers, Sequences, TLC
NT == 30000
NDiv(a, b) == (a + b \div 2) \div b
\* exp(-k/8) for k = 0..96; below the resolution from there on. NonlinMC checks the table.
ExpLit == <<30000, 26475, 23364, 20619, 18196, 16058, 14171, 12506, 11036, 9740, 8595, 7585, 6694, 5907, 5213, 4601, 4060,
  3583, 3162, 2790, 2463, 2173, 1918, 1692, 1494, 1318, 1163, 1027, 906, 799, 706, 623, 549, 485, 428, 378, 333,
  294, 260, 229, 202, 178, 157, 139, 123, 108, 95, 84, 74, 66, 58, 51, 45, 40, 35, 31, 27, 24, 21, 19, 17, 15,
  13, 11, 10, 9, 8, 7, 6, 5, 5, 4, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0>>
ExpTab == [k \in 0..200 |-> IF k > 96 THEN 0 ELSE ExpLit[k + 1]]
Pos(k) == IF k < 0 THEN -k ELSE k
Sigm(k) == LET y == NDiv(NT * NT, NT + ExpTab[Pos(k)]) IN IF k >= 0 THEN y ELSE NT - y
Tanh(k) == LET ex == ExpTab[2 * Pos(k)]
               y == NDiv(NT * (NT - ex), NT + ex) IN IF k >= 0 THEN y ELSE -y
SigmTab == TLCEval([k \in -96..96 |-> Sigm(k)])
TanhTab == TLCEval([k \in -96..96 |-> Tanh(k)])
\* value and derivative at k/8, in units of 1/NT; "softmax" is the library's name for x*sigmoid(x)
Val(nl, k) == CASE nl = "identity" -> NDiv(k * NT, 8)
                [] nl = "relu" -> IF k > 0 THEN NDiv(k * NT, 8) ELSE 0
                [] nl = "tanh" -> TanhTab[k]
                [] nl = "sigmoid" -> SigmTab[k]
                [] nl = "softmax" -> NDiv(k * SigmTab[k], 8)
Der(nl, k) == CASE nl = "identity" -> NT
                [] nl = "relu" -> IF k > 0 THEN NT ELSE 0
                [] nl = "tanh" -> NT - NDiv(TanhTab[k] * TanhTab[k], NT)
                [] nl = "sigmoid" -> NDiv(SigmTab[k] * (NT - SigmTab[k]), NT)
                [] nl = "softmax" -> SigmTab[k] + NDiv(k * NDiv(SigmTab[k] * (NT - SigmTab[k]), NT), 8)
Names == {"identity", "relu", "tanh", "sigmoid", "softmax"}
Differentiable(nl, k) == nl # "relu" \/ k # 0
=============================================================================
