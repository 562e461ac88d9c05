------------------------------- MODULE MatOps -------------------------------
(* Integer matrices whose smaller side is at most three: squared Frobenius norm, and deciding whether a number is, up
   to a tolerance, the squared spectral or the squared nuclear norm. Integer arithmetic only. *)
EXTENDS Integers, Sequences
RECURSIVE SumS(_)
SumS(s) == IF s = << >> THEN 0 ELSE Head(s) + SumS(Tail(s))
RECURSIVE MaxS(_)
MaxS(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MaxS(Tail(s)) IN IF Head(s) > m THEN Head(s) ELSE m
AbsV(x) == IF x < 0 THEN -x ELSE x
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Tr(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
Fro2(A) == SumS([i \in 1..Rows(A) |-> SumS([j \in 1..Cols(A) |-> A[i][j] * A[i][j]])])
Gram0(A) == [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> SumS([k \in 1..Cols(A) |-> A[i][k] * A[j][k]])]]
Gram(A) == IF Rows(A) <= Cols(A) THEN Gram0(A) ELSE Gram0(Tr(A))
TraceOf(G) == SumS([i \in 1..Len(G) |-> G[i][i]])
M2(G, i, j) == G[i][i] * G[j][j] - G[i][j] * G[j][i]
C2(G) == CASE Len(G) = 1 -> 0 [] Len(G) = 2 -> M2(G, 1, 2) [] OTHER -> M2(G, 1, 2) + M2(G, 1, 3) + M2(G, 2, 3)
Det3(G) == G[1][1] * (G[2][2] * G[3][3] - G[2][3] * G[3][2]) - G[1][2] * (G[2][1] * G[3][3] - G[2][3] * G[3][1]) + G[1][3] * (G[2][1] * G[3][2] - G[2][2] * G[3][1])
C3(G) == IF Len(G) < 3 THEN 0 ELSE Det3(G)
\* x/k times the identity minus G, times k
Shift(G, x, k) == [i \in 1..Len(G) |-> [j \in 1..Len(G) |-> (IF i = j THEN x ELSE 0) - k * G[i][j]]]
PosDef(H) == /\ H[1][1] > 0
             /\ Len(H) >= 2 => M2(H, 1, 2) > 0
             /\ Len(H) = 3 => Det3(H) > 0
\* scale for which the minors stay within 32 bits
Unit(G) == CASE Len(G) = 1 -> 1000 [] Len(G) = 2 -> 200 [] OTHER -> 10
\* is x/1000 the largest eigenvalue of G? slack in units of 1/Unit
IsSpectral(G, x, slack) == LET k == Unit(G) X == (x * k) \div 1000 IN PosDef(Shift(G, X + 1 + slack, k)) /\ ~PosDef(Shift(G, X - slack, k))
RECURSIVE SqrtFrom(_, _)
SqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE SqrtFrom(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE SqrtFrom(n, IF n > 2000000 THEN 46340 ELSE n)
\* e (times 100) is the sum of singular values iff (e^2 - F)^2 / 4 = c2 + 2 sqrt(c3) e and e^2 >= F; g is increasing there
G_(G, e) == LET p == (((e * e) \div 100) - 100 * TraceOf(G)) \div 2 IN (IF p < 0 THEN -(p * p) ELSE p * p) - 10000 * C2(G) - 2 * ISqrt(10000 * C3(G)) * e
\* is x/1000 the squared sum of singular values? slack in units of 1/100 of the sum
IsNuclear(G, x, slack) == LET e == ISqrt(10 * x) IN G_(G, e + slack) >= 0 /\ (e <= slack \/ G_(G, e - slack) <= 0)
(* base-2 logarithm of num/den in units of 1/4096, by repeated squaring of a number kept in [2^14, 2^15) *)
RECURSIVE Norm2(_, _, _)
Norm2(n, d, k) == IF n >= 2 * d THEN (IF d > 500000000 THEN Norm2(n \div 2, d, k + 1) ELSE Norm2(n, 2 * d, k + 1))
                  ELSE IF n < d THEN (IF n > 500000000 THEN Norm2(n, d \div 2, k - 1) ELSE Norm2(2 * n, d, k - 1)) ELSE <<n, d, k>>
RECURSIVE Mantissa(_, _, _, _)
Mantissa(n, d, bits, acc) == IF bits = 0 THEN acc ELSE IF 2 * n >= d THEN Mantissa(2 * n - d, d, bits - 1, 2 * acc + 1) ELSE Mantissa(2 * n, d, bits - 1, 2 * acc)
RECURSIVE Bits(_, _, _)
Bits(x, b, acc) == IF b = 0 THEN acc ELSE LET y == (x * x + 8192) \div 16384 IN IF y >= 32768 THEN Bits(y \div 2, b - 1, 2 * acc + 1) ELSE Bits(y, b - 1, 2 * acc)
Log2(num, den) == LET t == Norm2(num, den, 0) IN 4096 * t[3] + Bits(16384 + Mantissa(t[1] - t[2], t[2], 14, 0), 12, 0)
=============================================================================
