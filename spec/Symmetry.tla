------------------------------ MODULE Symmetry ------------------------------
(* A particle system, and next to it its image under a symmetry; both move in exact Euler steps, the image with the time step
   divided by the factor of its costates and multiplied by the one of its weights. They stay images of each other, and the energy has no first order change. *)
EXTENDS SymOps
CONSTANTS Configs, Starts(_), Symmetries(_), MaxSteps
VARIABLES c, g, a, b, t
syvars == <<c, g, a, b, t>>
\* c: [model, nl, N, F, g]; the image may have a multiple of the particles; both are measured in the same units
Env(n) == [model |-> c.model, nl |-> c.nl, S |-> 1, Z |-> 4 * c.N * g.mult * g.wf, N |-> n, g |-> c.g, gn |-> << >>, wden |-> 2,
           wts |-> [l \in LayersOf(c.model) |-> [weight |-> <<2, 1>>, bias |-> <<1, 2>>]]]
EnvA == Env(c.N)
EnvB == LET e == Env(c.N * g.mult) IN [e EXCEPT !.wts = [l \in DOMAIN e.wts |-> [weight |-> <<2 * g.wf, 1>>, bias |-> <<g.wf, 2>>]]]    \* all weights times g.wf
Image(s) == [q |-> Act(g, s.q), p |-> Times(Act(g, s.p), g.num), x |-> ActData(g, s.x)]
Init == /\ c \in Configs /\ a \in Starts(c) /\ g \in Symmetries(c) /\ t = 0 /\ b = Image(a)
\* one step of length w/n
AddDiv(x, d, n, w) == [k \in DOMAIN x |-> Mat(Rows(x[k]), Cols(x[k]), LAMBDA r, j : x[k][r][j] + w * (IF n = -1 THEN - d[k][r][j] ELSE d[k][r][j] \div n))]
Step(e, s, n, w) == LET th == Params(e, s.q, s.p) IN
   [q |-> AddDiv(s.q, RhsAll(e, th, s.q), n, w), p |-> AddDiv(s.p, CoRhsAll(e, th, s.q, s.p), n, w), x |-> AddDiv(s.x, RhsAll(e, th, s.x), n, w)]
Move == /\ t < MaxSteps /\ t' = t + 1 /\ a' = Step(EnvA, a, 1, 1) /\ b' = Step(EnvB, b, g.num, g.wf) /\ UNCHANGED <<c, g>>
Next == Move
Spec == Init /\ [][Next]_syvars

StillImage == b = Image(a)
EnergyOf(e, s) == Kinetic2(e, Params(e, s.q, s.p))
EnergyScales == t = 0 => g.wf * EnergyOf(EnvB, b) = g.num * g.num * EnergyOf(EnvA, a)
Conserved == t = 0 /\ ~Damped(c.model) => EnergyRate(EnvA, a.q, a.p) = 0
DataFollow == \A k \in DOMAIN a.q : a.x[k] = a.q[k]
=============================================================================
