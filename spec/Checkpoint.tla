----------------------------- MODULE Checkpoint -----------------------------
(* Splitting the requested times into pieces between checkpoints, as a machine that walks along both lists, and the
   piecewise solution it produces. *)
EXTENDS CheckOps
CONSTANTS MaxTick, Numbers, Intervals
VARIABLES t, by, v, it, ic, cur, mark, pieces, marks
kvars == <<t, by, v, it, ic, cur, mark, pieces, marks>>

RECURSIVE SortSet(_)
SortSet(s) == IF s = {} THEN << >> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SortSet(s \ {m})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Lists == LET up == {SortSet(s) : s \in {z \in SUBSET (0..MaxTick) : Cardinality(z) >= 2}} IN up \cup {Rev(s) : s \in up}

KInit == /\ t \in Lists
         /\ \/ by = "number" /\ v \in Numbers
            \/ by = "interval" /\ v \in Intervals
         /\ it = 2 /\ ic = 2 /\ cur = <<U * t[1]>> /\ mark = <<TRUE>> /\ pieces = << >> /\ marks = << >>
C == Cps(t, by, v)
NextT == U * t[it]
NextC == C[ic]
Running == it <= Len(t) /\ ic <= Len(C)
TakeTime == /\ Running /\ Sgn(t) * NextC > Sgn(t) * NextT
            /\ cur' = Append(cur, NextT) /\ mark' = Append(mark, TRUE) /\ it' = it + 1
            /\ UNCHANGED <<t, by, v, ic, pieces, marks>>
Close(m) == /\ pieces' = Append(pieces, Append(cur, NextC)) /\ marks' = Append(marks, Append(mark, m))
            /\ cur' = <<NextC>> /\ mark' = <<FALSE>> /\ ic' = ic + 1
TakeCheckpoint == /\ Running /\ Sgn(t) * NextC < Sgn(t) * NextT /\ Close(FALSE) /\ UNCHANGED <<t, by, v, it>>
TakeBoth == /\ Running /\ NextC = NextT /\ Close(TRUE) /\ it' = it + 1 /\ UNCHANGED <<t, by, v>>
KNext == TakeTime \/ TakeCheckpoint \/ TakeBoth
KSpec == KInit /\ [][KNext]_kvars

Fin == ~ Running
\* design properties
RECURSIVE Marked(_, _)
Marked(p, m) == IF p = << >> THEN << >> ELSE (IF Head(m) THEN <<Head(p)>> ELSE << >>) \o Marked(Tail(p), Tail(m))
RECURSIVE AllMarked(_, _)
AllMarked(ps, ms) == IF ps = << >> THEN << >> ELSE Marked(Head(ps), Head(ms)) \o AllMarked(Tail(ps), Tail(ms))
EveryRequestedOnce == Fin => AllMarked(pieces, marks) = [i \in 1..Len(t) |-> U * t[i]]
Chained == \A i \in 1..(Len(pieces) - 1) : pieces[i][Len(pieces[i])] = pieces[i + 1][1]
Covers == Fin => /\ pieces[1][1] = U * t[1] /\ pieces[Len(pieces)][Len(pieces[Len(pieces)])] = U * t[Len(t)]
                 /\ it > Len(t) /\ ic > Len(C)
Monotone == \A i \in 1..Len(pieces) : \A j \in 1..(Len(pieces[i]) - 1) : Sgn(t) * pieces[i][j] < Sgn(t) * pieces[i][j + 1]
Boundaries == Fin => {pieces[i][Len(pieces[i])] : i \in DOMAIN pieces} = {C[j] : j \in 2..Len(C)}
OnlyThese == \A i \in DOMAIN pieces : \A j \in DOMAIN pieces[i] : ~ marks[i][j] => \E k \in DOMAIN C : C[k] = pieces[i][j]
\* starting each piece from the end of the one before gives the solution of one go
Bs == << <<1, -1>>, <<2, 0>> >>
Whole(n) == Euler(n, t[1], Sgn(t), <<1, 2>>, 1, Bs, <<1, -1>>, <<2, 1>>).x
Ticks(i) == (Sgn(t) * (pieces[i][Len(pieces[i])] - pieces[i][1])) \div U
RECURSIVE Piecewise(_)
Piecewise(i) == IF i = 0 THEN <<1, 2>> ELSE Euler(Ticks(i), pieces[i][1] \div U, Sgn(t), Piecewise(i - 1), 1, Bs, <<1, -1>>, <<2, 1>>).x
Transparent == Fin /\ Fits(t, by, v) => Piecewise(Len(pieces)) = Whole(Sgn(t) * (t[Len(t)] - t[1]))
=============================================================================
