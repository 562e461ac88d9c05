-------------------------------- MODULE Sweep -------------------------------
(* Sweeping a table of parameter values. The table is a sequence of keys with their numbers of values; the machine
   writes one combination (a sequence of positions) per step, as an odometer: the last key runs fastest. *)
EXTENDS Integers, Sequences
CONSTANTS MaxKeys, MaxVals
VARIABLES tbl, cur, out, phase
svars == <<tbl, cur, out, phase>>
Tables == UNION {[1..n -> 0..MaxVals] : n \in 0..MaxKeys}
RECURSIVE Prod(_)
Prod(t) == IF t = << >> THEN 1 ELSE Head(t) * Prod(Tail(t))
Combos(t) == {c \in [1..Len(t) -> 1..MaxVals] : \A k \in 1..Len(t) : c[k] <= t[k]}
Less(a, b) == \E k \in DOMAIN a : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
\* the combination number i (from 0) of a table: positions of the digits of i in mixed radix, first key most significant
RECURSIVE Digits(_, _)
Digits(t, i) == IF t = << >> THEN << >>
                ELSE LET w == Prod(Tail(t)) IN <<((i \div w) % Head(t)) + 1>> \o Digits(Tail(t), i % w)
All(t) == [i \in 1..Prod(t) |-> Digits(t, i - 1)]
SInit == tbl \in Tables /\ cur = [k \in 1..Len(tbl) |-> 1] /\ out = << >> /\ phase = IF Prod(tbl) = 0 THEN "done" ELSE "run"
\* advance the odometer
Advance(t, c) == LET K == {k \in DOMAIN c : c[k] < t[k] /\ \A j \in DOMAIN c : j > k => c[j] = t[j]}
                 IN IF K = {} THEN << >> ELSE LET k == CHOOSE k \in K : TRUE IN [j \in DOMAIN c |-> IF j < k THEN c[j] ELSE IF j = k THEN c[j] + 1 ELSE 1]
SNext == /\ phase = "run" /\ out' = Append(out, cur) /\ UNCHANGED tbl
         /\ LET n == Advance(tbl, cur) IN IF n = << >> THEN phase' = "done" /\ UNCHANGED cur ELSE phase' = phase /\ cur' = n
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(SNext)
Ascending == \A i \in 1..(Len(out) - 1) : Less(out[i], out[i + 1])
Complete == phase = "done" => /\ {out[i] : i \in DOMAIN out} = Combos(tbl)
                              /\ Len(out) = Prod(tbl)
                              /\ out = All(tbl)
Finishes == <>(phase = "done")
=============================================================================
