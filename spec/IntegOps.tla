------------------------------ MODULE IntegOps ------------------------------
(* Settings of integrators. Times in units of 1/48. A step of 0 means: no step size given, one step per requested time. *)
EXTENDS Integers, Sequences, FiniteSets
None == -1
Fixed == {"euler", "midpoint", "rk4"}
Adaptive == {"dopri5", "adams"}
\* step in force: the explicit option wins over the default, adaptive methods get none
Effective(method, opt, dflt) ==
  IF method \in Adaptive THEN opt
  ELSE IF opt # None THEN opt ELSE dflt
\* evaluation times inside a step from a to b
Stages(m, a, b) == CASE m = "euler" -> <<a>>
                     [] m = "midpoint" -> <<a, a + (b - a) \div 2>>
                     [] m = "rk4" -> <<a, a + (b - a) \div 3, a + (2 * (b - a)) \div 3, b>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
Grid(step, t) == IF step = None THEN t
  ELSE LET L == t[Len(t)] - t[1]
           n == (L + step - 1) \div step
       IN [i \in 1..(n + 1) |-> IF i = n + 1 THEN t[Len(t)] ELSE t[1] + (i - 1) * step]
Evals(m, step, t) == LET g == Grid(step, t) IN Concat([i \in 1..(Len(g) - 1) |-> Stages(m, g[i], g[i + 1])])
=============================================================================
