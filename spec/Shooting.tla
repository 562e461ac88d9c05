------------------------------ MODULE Shooting ------------------------------
(* Design of a shooting model: evaluate the parameters from the particles, then move states, costates and data.
   Exact integer arithmetic; invariants compare the formulas of ShootOps with their variational definition. *)
EXTENDS ShootOps

CONSTANTS ModelSet, NLs, MaxSteps
VARIABLES m, nl, N, F, q, p, x, th, phase, t
shvars == <<m, nl, N, F, q, p, x, th, phase, t>>
Env == [model |-> m, nl |-> nl, S |-> 1, Z |-> 4 * N, N |-> N, g |-> [kind |-> "lin"], gn |-> << >>, wden |-> 2,
        wts |-> [l \in LayersOf(m) |-> [weight |-> <<2, 1>>, bias |-> <<1, 2>>]]]
Vals(n, f) == IF n * f = 1 THEN {-2, 1} \cup (IF Len(Keys(m)) < 3 THEN {-1, 2} ELSE {}) ELSE {-1, 2}
Matrices(n, f) == [1..n -> [1..f -> Vals(n, f)]]
Init == /\ m \in ModelSet /\ nl \in NLs
        /\ \E d \in {<<1, 1>>, <<2, 1>>, <<1, 2>>} : N = d[1] /\ F = d[2] /\ (d # <<1, 1>> => m # "Symmetrized")
        /\ q \in [SeqSet(Keys(m)) -> Matrices(N, F)] /\ p \in [SeqSet(Keys(m)) -> Matrices(N, F)]
        /\ x = [k \in SeqSet(Keys(m)) |-> Append(q[k], [c \in 1..F |-> 3])]    \* samples at the particles, and one elsewhere
        /\ th = << >> /\ phase = "evaluate" /\ t = 0
Evaluate == /\ phase = "evaluate" /\ t < MaxSteps /\ th' = Params(Env, q, p) /\ phase' = "move"
            /\ UNCHANGED <<m, nl, N, F, q, p, x, t>>
Plus(a, b) == Mat(Rows(a), Cols(a), LAMBDA r, c : a[r][c] + b[r][c])
Move == /\ phase = "move" /\ t < MaxSteps
        /\ LET dq == RhsAll(Env, th, q)
               dp == CoRhsAll(Env, th, q, p)
               dx == RhsAll(Env, th, x)
           IN /\ q' = [k \in DOMAIN q |-> Plus(q[k], dq[k])]
              /\ p' = [k \in DOMAIN p |-> Plus(p[k], dp[k])]
              /\ x' = [k \in DOMAIN x |-> Plus(x[k], dx[k])]
        /\ t' = t + 1 /\ phase' = "evaluate" /\ UNCHANGED <<m, nl, N, F, th>>
Next == Evaluate \/ Move
Spec == Init /\ [][Next]_shvars

\* ---- design properties
Fresh == phase = "move" /\ t = 0
Lag(th1, q1) == N * Kinetic2(Env, th1) - 2 * Env.Z * Env.wden * PotentialN(Env, th1, q1, p)    \* times 2 Z^2 wden
Bump(k, r, c, d) == [q EXCEPT ![k][r][c] = @ + d]
Stationary == Fresh => \A i \in DOMAIN Terms(m) : LET tt == Terms(m)[i] IN
   /\ \A o \in DOMAIN th[tt.l].weight : \A j \in DOMAIN th[tt.l].weight[o] : \A d \in {-1, 1} :
        Lag([th EXCEPT ![tt.l].weight[o][j] = @ + d], q) > Lag(th, q)
   /\ tt.b => \A o \in DOMAIN th[tt.l].bias : \A d \in {-1, 1} : Lag([th EXCEPT ![tt.l].bias[o] = @ + d], q) > Lag(th, q)
\* the costate equation is minus the derivative of the pairing with fixed parameters ...
CostateEquation == Fresh /\ nl = "identity" => LET dp == CoRhsAll(Env, th, q, p) IN
   \A k \in DOMAIN q : \A r \in 1..N : \A c \in 1..F :
     PotentialN(Env, th, Bump(k, r, c, 1), p) - PotentialN(Env, th, Bump(k, r, c, -1), p) = - 2 * dp[k][r][c]
\* ... and also the derivative of the reduced Lagrangian, in which the parameters follow the states
ReducedLagrangian == Fresh /\ nl = "identity" => LET dp == CoRhsAll(Env, th, q, p) IN
   \A k \in DOMAIN q : \A r \in 1..N : \A c \in 1..F :
     LET qa == Bump(k, r, c, 1)
         qb == Bump(k, r, c, -1)
     IN Lag(Params(Env, qa, p), qa) - Lag(Params(Env, qb, p), qb) = 4 * Env.Z * Env.wden * dp[k][r][c]
DataFollows == \A k \in DOMAIN q : \A r \in 1..N : x[k][r] = q[k][r]
=============================================================================
