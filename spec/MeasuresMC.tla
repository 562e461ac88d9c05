----------------------------- MODULE MeasuresMC -----------------------------
EXTENDS Measures, TLC, Json, IOUtils, SequencesExt, FiniteSets
ThoroughTier == IOEnv.TIER = "thorough"
TimesMC == 0..2
MatsMC == {<<<<1>>>>, <<<<1, 1>>, <<0, 1>>>>, <<<<2, 0>>>>}
LenMC == IF ThoroughTier THEN 5 ELSE 4
Mats22 == [1..2 -> [1..2 -> -2..2]]
Mats23 == [1..2 -> [1..3 -> -1..1]]
Mats33 == {A \in [1..3 -> [1..3 -> -1..1]] : ThoroughTier \/ (A[1][1] = 1 /\ A[2][1] = 1 /\ A[3][1] >= 0)}
\* the decision procedures agree with the definitions: Rayleigh quotients, duality with signed permutations, order of norms
Dot(a, b) == SumS([i \in 1..Len(a) |-> a[i] * b[i]])
Quad(G, x) == Dot(x, [i \in 1..Len(G) |-> Dot(G[i], x)])
\* by bisection: the largest X (in 1/Unit) whose shift is not positive definite
RECURSIVE Bis(_, _, _)
Bis(G, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF PosDef(Shift(G, m, Unit(G))) THEN Bis(G, lo, m) ELSE Bis(G, m, hi)
Lam(G) == Bis(G, 0, TraceOf(G) * Unit(G) + 1)
RECURSIVE BisN(_, _, _)
BisN(G, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF G_(G, m) > 0 THEN BisN(G, lo, m) ELSE BisN(G, m, hi)
Nuc100(G) == BisN(G, 0, 100 * TraceOf(G) + 100)
Sq(n) == IF n = 2 THEN {<<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<1, 0>>, <<0, -1>>>>, <<<<0, 1>>, <<-1, 0>>>>} ELSE {}
Inner(A, B) == SumS([i \in 1..Len(A) |-> Dot(A[i], B[i])])
Agree(A) == LET G == Gram(A) k == Unit(G) lam == Lam(G) nuc == Nuc100(G) F == Fro2(A) IN F > 0 =>
   /\ IsSpectral(G, (lam * 1000) \div k, 1) /\ ~IsSpectral(G, ((lam + 5) * 1000) \div k, 1) /\ (lam > 6 => ~IsSpectral(G, ((lam - 5) * 1000) \div k, 1))
   /\ IsNuclear(G, (nuc * nuc) \div 10, 2) /\ ~IsNuclear(G, ((nuc + 6) * (nuc + 6)) \div 10, 2) /\ ~IsNuclear(G, ((nuc - 6) * (nuc - 6)) \div 10, 2)
   /\ \A x \in [1..Len(G) -> -3..3] : k * Quad(G, x) <= (lam + 1) * Dot(x, x)
   /\ lam <= k * F /\ nuc * nuc >= 10000 * F - 2 * nuc - 200 /\ nuc * nuc <= 10000 * Len(G) * F + 10 * nuc
   /\ (Rows(A) = Cols(A)) => \A Q \in Sq(Rows(A)) : 100 * AbsV(Inner(A, Q)) <= nuc + 2
   /\ TraceOf(G) = F
ASSUME \A A \in Mats22 : Agree(A)
ASSUME \A A \in Mats23 : Agree(A)
ASSUME \A A \in Mats33 : Agree(A)
\* logarithms: powers of two, and products to sums
ASSUME \A k \in 0..20 : Log2(2 ^ k, 1) = 4096 * k /\ Log2(1, 2 ^ k) = -(4096 * k)
ASSUME \A a, b \in 1..60 : AbsV(Log2(a * b, 1) - Log2(a, 1) - Log2(b, 1)) <= 12 /\ AbsV(Log2(a, b) - Log2(a, 1) + Log2(b, 1)) <= 12
Compl == UNION {[1..n -> [t : 0..2, v : {1, 2, 3}]] : n \in 1..3}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({[kind |-> "mat", a |-> A, s |-> << >>] : A \in Mats22 \cup Mats23} \cup {[kind |-> "series", a |-> << >>, s |-> s] : s \in Compl}))
=============================================================================
