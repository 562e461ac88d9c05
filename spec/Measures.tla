------------------------------ MODULE Measures ------------------------------
(* Recording the norms of the parameters along a solution and the complexity measure made of the record: at each
   evaluation time and sum of squared norms are appended; integration may restart at an earlier time. The measure is
   built step by step here and proved to be the integral defined on the whole record. *)
EXTENDS Integers, Sequences, MatOps
CONSTANTS Times, Mats, MaxLen
VARIABLES t, fro, acc
mvars == <<t, fro, acc>>
Dt(a, b) == IF b < a THEN 0 ELSE b - a
\* one step of the integral: time step times logarithm of the average of the two sums, in 1/4096
StepOf(ta, tb, fa, fb) == Dt(ta, tb) * Log2(fa + fb, 2)
RECURSIVE IntegralTo(_, _, _)
IntegralTo(ts, fs, n) == IF n <= 1 THEN 0 ELSE IntegralTo(ts, fs, n - 1) + StepOf(ts[n - 1], ts[n], fs[n - 1], fs[n])
Integral(ts, fs) == IntegralTo(ts, fs, Len(ts))
MInit == t = << >> /\ fro = << >> /\ acc = 0
Record(tt, A) == /\ Len(t) < MaxLen
                 /\ t' = Append(t, tt) /\ fro' = Append(fro, Fro2(A))
                 /\ acc' = IF t = << >> THEN 0 ELSE acc + StepOf(t[Len(t)], tt, fro[Len(t)], Fro2(A))
MNext == \E tt \in Times, A \in Mats : Fro2(A) > 0 /\ Record(tt, A)
MSpec == MInit /\ [][MNext]_mvars
IsIntegral == acc = Integral(t, fro)
\* steps back in time contribute nothing: the measure is the sum over the runs that go forward
Forward(a, b) == \A i \in a..(b - 1) : t[i] <= t[i + 1]
NoLoss == \A k \in 1..(Len(t) - 1) : t[k + 1] <= t[k] =>
             acc = Integral(SubSeq(t, 1, k), SubSeq(fro, 1, k)) + Integral(SubSeq(t, k + 1, Len(t)), SubSeq(fro, k + 1, Len(t)))
=============================================================================
