------------------------------ MODULE Plateau -------------------------------
(* The plateau scheduler for every configuration and every metric sequence within bounds, against its documented rule
   stated on the history: hist holds, for every step, the metric and whether the rate was to be reduced there. *)
EXTENDS Integers, Sequences, FiniteSets, PlateauOps
CONSTANTS Configs, Metrics, Len0
VARIABLES c, st, hist
pvars == <<c, st, hist>>
PInit == c \in Configs /\ st = Start(c) /\ hist = << >>
PStep(m) == Len(hist) < Len0 /\ st' = Step(c, st, m) /\ hist' = Append(hist, [m |-> m, cut |-> st'.cut, eff |-> st'.lr # st.lr, conv |-> st'.conv]) /\ UNCHANGED c
PNext == \E m \in Metrics : PStep(m)
PSpec == PInit /\ [][PNext]_pvars
Last(P(_)) == LET I == {i \in DOMAIN hist : P(i)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
\* best value seen after step a up to step b, judged with the threshold
RECURSIVE BestOf(_, _)
BestOf(a, b) == IF b <= a THEN NoBest ELSE LET p == BestOf(a, b - 1) IN IF Better(c, hist[b].m, p) THEN hist[b].m ELSE p
LastBefore(n, P(_)) == LET I == {i \in 1..(n - 1) : P(i)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
\* step n is a non-improving value outside the cooldown
BadStep(n) == LET e == LastBefore(n, LAMBDA i : hist[i].eff) k == LastBefore(n, LAMBDA i : hist[i].cut)
              IN ~Better(c, hist[n].m, BestOf(e, n - 1)) /\ (k = 0 \/ n - k > c.cooldown)
\* the rate is to be reduced exactly when the last patience+1 steps, all after the previous reduction, were bad
RuleHolds == \A n \in DOMAIN hist : hist[n].cut <=> /\ n > c.patience
                                                    /\ \A i \in (n - c.patience)..n : BadStep(i) /\ LastBefore(n, LAMBDA k : hist[k].cut) < i
NeverBelowMin == \A i \in DOMAIN st.lr : st.lr[i] >= (IF c.min[i] < c.lr[i] THEN c.min[i] ELSE c.lr[i]) /\ st.lr[i] <= c.lr[i]
ConvergedOnlyAtAnEnd == st.conv => \E i \in DOMAIN st.lr : ~Effective(c, i, st.lr[i])
ConvergenceStays == \A i, j \in DOMAIN hist : i < j /\ hist[i].conv => hist[j].conv
=============================================================================
