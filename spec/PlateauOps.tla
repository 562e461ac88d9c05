----------------------------- MODULE PlateauOps -----------------------------
(* One step of the plateau scheduler. Learning rates, minima, eps: integers in a common unit; factor = num/den;
   metric values: integers, or NaN; thresholds: thn/4 (relative) or thn (absolute). best = NoBest: nothing seen yet. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
NaN == 99999
NoBest == 88888
Better(c, cur, best) ==
  IF cur = NaN THEN FALSE
  ELSE IF best = NoBest THEN TRUE
  ELSE CASE c.mode = "min" /\ c.thmode = "rel" -> 4 * cur < best * (4 - c.th)
         [] c.mode = "min" /\ c.thmode = "abs" -> cur < best - c.th
         [] c.mode = "max" /\ c.thmode = "rel" -> 4 * cur > best * (4 + c.th)
         [] OTHER -> cur > best + c.th
Max(a, b) == IF a > b THEN a ELSE b
Reduced(c, i, lr) == Max((lr * c.num) \div c.den, c.min[i])
Effective(c, i, lr) == lr - Reduced(c, i, lr) > c.eps
Start(c) == [best |-> NoBest, bad |-> 0, cool |-> 0, conv |-> FALSE, lr |-> c.lr, cut |-> FALSE]
Step(c, s, cur) ==
  LET better == Better(c, cur, s.best)
      best == IF better THEN cur ELSE s.best
      cooling == s.cool > 0
      cool == IF cooling THEN s.cool - 1 ELSE 0
      bad == IF cooling \/ better THEN 0 ELSE s.bad + 1
  IN IF bad > c.patience
     THEN LET eff == {i \in DOMAIN s.lr : Effective(c, i, s.lr[i])}
          IN [best |-> IF eff = {} THEN best ELSE NoBest, bad |-> 0, cool |-> c.cooldown, conv |-> s.conv \/ eff # DOMAIN s.lr,
              lr |-> [i \in DOMAIN s.lr |-> IF i \in eff THEN Reduced(c, i, s.lr[i]) ELSE s.lr[i]], cut |-> TRUE]
     ELSE [best |-> best, bad |-> bad, cool |-> cool, conv |-> s.conv, lr |-> s.lr, cut |-> FALSE]
RECURSIVE Run(_, _, _)
\* states after each of the metric values ms
Run(c, s, ms) == IF ms = << >> THEN << >> ELSE LET t == Step(c, s, Head(ms)) IN <<t>> \o Run(c, t, Tail(ms))
=============================================================================
