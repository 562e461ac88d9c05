------------------------------ MODULE TimesTrace ----------------------------
(* Behaviours of real blocks: settings, conversions and forward passes. The value for each elapsed time is learnt from the
   first pass that shows it and required from then on; elapsed time 0 is the initial condition, recorded at the start. *)
EXTENDS TraceKit
VARIABLES l, setting, sol, x0
EndSetting(T) == [times |-> <<0, T>>, all |-> FALSE]
VecSetting(v) == [times |-> v, all |-> TRUE]
Answer(s) == IF s.all THEN [i \in 1..Len(s.times) |-> s.times[i] - s.times[1]] ELSE <<s.times[Len(s.times)] - s.times[1]>>
Off == 260
Unit == 1000000
Blank == [i \in 1..(2 * Off) |-> << >>]
Known(t) == sol[t + Off]
FwdFails(e) ==
  LET a == Answer(setting)
      lo == Min2(setting.times[1], setting.times[Len(setting.times)])
      hi == Max2(setting.times[1], setting.times[Len(setting.times)])
  IN Clause("one-value-per-time", Len(e.out) = Len(a))
     \cup Clause("dictionaries-have-every-time", e.dicts = (IF setting.all THEN Len(a) ELSE 0))
     \cup IF Len(e.out) # Len(a) THEN {} ELSE
     Clause("value-at-time", \A i \in DOMAIN a : Known(a[i]) = << >> \/ NearSeq(Known(a[i]), e.out[i], e.tol))
     \cup Clause("starts-at-initial-condition", setting.all => Len(e.out[1]) >= Len(x0) /\ NearSeq(x0, SubSeq(e.out[1], 1, Len(x0)), e.tol))
     \cup Clause("integrates-the-interval", Len(e.evals) > 0 /\ Near(e.evals[1], Unit * setting.times[1], 3) /\ \A i \in DOMAIN e.evals : e.evals[i] >= Unit * lo - 3 /\ e.evals[i] <= Unit * hi + 3)
     \cup Clause("reaches-the-end", Len(e.evals) > 0 /\ \E i \in DOMAIN e.evals : Near(e.evals[i], Unit * setting.times[Len(setting.times)], 3))    \* the method used looks at the end of every step
     \cup Clause("consistent-dictionary", e.same)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev \in {"Start", "End", "Vec", "Conv"} -> {}
              [] e.ev = "Forward" -> FwdFails(e)
              [] e.ev = "Pair" -> Clause(e.clause, NearSeq(e.a, e.b, e.tol))
              [] OTHER -> {"unknown-event"}
RECURSIVE Learn(_, _, _, _)
Learn(s, a, out, i) == IF i = 0 THEN s ELSE LET g == Learn(s, a, out, i - 1) IN IF g[a[i] + Off] = << >> THEN [g EXCEPT ![a[i] + Off] = out[i]] ELSE g
TraceInit == l = 1 /\ setting = EndSetting(4) /\ sol = Blank /\ x0 = << >>
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ setting' = CASE e.ev = "Start" -> EndSetting(e.max) [] e.ev = "End" -> EndSetting(e.t) [] e.ev = "Vec" -> VecSetting(e.v) [] OTHER -> setting
                   /\ sol' = CASE e.ev = "Start" -> Blank
                               [] e.ev = "Forward" /\ Len(e.out) = Len(Answer(setting)) -> Learn(sol, Answer(setting), e.out, Len(e.out))
                               [] OTHER -> sol
                   /\ x0' = IF e.ev = "Start" THEN e.x0 ELSE x0
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<setting, sol, x0>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, setting, sol, x0>>
=============================================================================
