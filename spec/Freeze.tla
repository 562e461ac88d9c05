------------------------------- MODULE Freeze -------------------------------
(* Which parameters of a model are trainable, after any history of freezing and unfreezing, and what a count reports. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Params, Size(_), MaxOps
VARIABLES on, hist, reported
fvars == <<on, hist, reported>>
RECURSIVE SumSize(_)
SumSize(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN Size(p) + SumSize(S \ {p})
After(trainable, kind, names) == IF kind = "freeze" THEN trainable \ names ELSE trainable \cup names
CountOf(trainable, all) == <<SumSize(all \ trainable), SumSize(trainable), SumSize(all)>>
FInit == on = Params /\ hist = << >> /\ reported = CountOf(Params, Params)
Do(kind, names) == Len(hist) < MaxOps /\ on' = After(on, kind, names) /\ hist' = Append(hist, [op |-> kind, names |-> names]) /\ reported' = CountOf(on', Params)
FNext == \E k \in {"freeze", "unfreeze"} : \E S \in SUBSET Params : Do(k, S)
FSpec == FInit /\ [][FNext]_fvars
\* the last call that names a parameter decides
LastSays(p) == LET I == {i \in DOMAIN hist : p \in hist[i].names}
               IN I = {} \/ hist[CHOOSE i \in I : \A j \in I : j <= i].op = "unfreeze"
LastDecides == \A p \in Params : (p \in on) = LastSays(p)
CountsAddUp == reported[1] + reported[2] = reported[3] /\ reported[3] = SumSize(Params) /\ reported[2] = SumSize(on)
=============================================================================
