-------------------------------- MODULE Times -------------------------------
(* The integration time of a block: the setting made last is in force until the next one; converting or moving the block
   keeps it. A forward pass answers the requested times. Times in ticks; the solution of the (autonomous) system is a
   function of the time since the start, here simply that time. *)
EXTENDS Integers, Sequences
CONSTANTS Ends, Vectors, Conversions, MaxOps
VARIABLES setting, hist, last
tvars == <<setting, hist, last>>
\* a setting is the sequence of times, and whether all of them are answered or only the last
EndSetting(T) == [times |-> <<0, T>>, all |-> FALSE]
VecSetting(v) == [times |-> v, all |-> TRUE]
Answer(s) == IF s.all THEN [i \in 1..Len(s.times) |-> s.times[i] - s.times[1]] ELSE <<s.times[Len(s.times)] - s.times[1]>>
Apply(s, op) == CASE op.k = "end" -> EndSetting(op.t)
                  [] op.k = "vec" -> VecSetting(op.v)
                  [] OTHER -> s
TInit == setting = EndSetting(4) /\ hist = << >> /\ last = << >>
Ops == {[k |-> "end", t |-> T] : T \in Ends} \cup {[k |-> "vec", v |-> v] : v \in Vectors} \cup {[k |-> "conv", c |-> c] : c \in Conversions}
Do(op) == /\ Len(hist) < MaxOps /\ hist' = Append(hist, op) /\ setting' = Apply(setting, op) /\ last' = << >>
Fwd == /\ last = << >> /\ last' = Answer(setting) /\ UNCHANGED <<setting, hist>>
TNext == Fwd \/ \E op \in Ops : Do(op)
TSpec == TInit /\ [][TNext]_tvars
\* design properties
RECURSIVE LastSetting(_)
LastSetting(h) == IF h = << >> THEN EndSetting(4) ELSE IF h[Len(h)].k = "conv" THEN LastSetting(SubSeq(h, 1, Len(h) - 1)) ELSE Apply(EndSetting(0), h[Len(h)])
LastSettingInForce == setting = LastSetting(hist)
EveryTimeAnswered == last # << >> => Len(last) = (IF setting.all THEN Len(setting.times) ELSE 1)
StartsWithInitial == last # << >> /\ setting.all => last[1] = 0
=============================================================================
