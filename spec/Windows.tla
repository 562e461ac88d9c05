------------------------------- MODULE Windows -------------------------------
(* Predicting a long trajectory piecewise. Times are indices 0..T-1; a piece covers C consecutive times (the last one fewer, but at
   least two), begins with the last time of the piece before, and starts from the value predicted there. The flow is autonomous: the
   value after k steps from v is v + k. In the end every time has the value of one long prediction, whatever C is. *)
EXTENDS Integers, Sequences
CONSTANTS MaxT
VARIABLES T, C, cur, pred, pieces, over
wvars == <<T, C, cur, pred, pieces, over>>
WInit == /\ T \in 2..MaxT /\ C \in {0} \cup 2..(MaxT + 1) /\ cur = 0 /\ pieces = << >> /\ over = FALSE
         /\ pred = [i \in 0..(T - 1) |-> IF i = 0 THEN 0 ELSE -1]
\* one index past the piece that starts at k
End(k) == IF C <= 0 \/ k + C >= T THEN T ELSE k + C
Piece == /\ ~over
         /\ pieces' = Append(pieces, [from |-> cur, to |-> End(cur) - 1])
         /\ pred' = [i \in 0..(T - 1) |-> IF i \in cur..(End(cur) - 1) THEN pred[cur] + (i - cur) ELSE pred[i]]
         /\ over' = (End(cur) = T) /\ cur' = End(cur) - 1 /\ UNCHANGED <<T, C>>
WSpec == WInit /\ [][Piece]_wvars /\ WF_wvars(Piece)
Agrees == over => \A i \in 0..(T - 1) : pred[i] = i
NoGap == \A k \in 1..(Len(pieces) - 1) : pieces[k].to = pieces[k + 1].from
Proper == \A k \in DOMAIN pieces : pieces[k].to > pieces[k].from /\ (C > 0 => pieces[k].to - pieces[k].from < C)
OnlyLastShort == C > 0 => \A k \in 1..(Len(pieces) - 1) : pieces[k].to - pieces[k].from = C - 1
Terminates == <>over
=============================================================================
