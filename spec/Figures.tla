------------------------------- MODULE Figures -------------------------------
(* Drawing calls. A call asks for some quantities to be displayed, saved, both or neither. Displaying draws every quantity in a figure
   of its own and shows it; saving switches to the settings for printing, draws every quantity, writes it in all formats, closes it,
   and switches back. Between calls the settings are the user's, and a saving call leaves no figure open. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Quantities, Formats, MaxCalls
VARIABLES pc, mode, todo, open, settings, shown, saved, calls
fvars == <<pc, mode, todo, open, settings, shown, saved, calls>>
FInit == pc = "idle" /\ mode = "none" /\ todo = {} /\ open = {} /\ settings = "own" /\ shown = << >> /\ saved = {} /\ calls = << >>
Begin(m, qs) == /\ pc = "idle" /\ Len(calls) < MaxCalls
                /\ calls' = Append(calls, [mode |-> m, qs |-> qs])
                /\ shown' = << >> /\ saved' = {} /\ mode' = m
                /\ IF m = "neither" THEN pc' = "idle" /\ UNCHANGED <<todo, settings>>
                   ELSE pc' = "draw" /\ todo' = qs /\ settings' = (IF m = "save" THEN "print" ELSE settings)
                /\ UNCHANGED open
Draw(x) == pc = "draw" /\ x \in todo /\ open' = {x} /\ todo' = todo \ {x} /\ pc' = "out" /\ UNCHANGED <<mode, settings, shown, saved, calls>>
Out == /\ pc = "out" /\ open' = {}
       /\ IF settings = "print" THEN saved' = saved \cup (open \X Formats) /\ UNCHANGED shown
          ELSE shown' = shown \o << CHOOSE x \in open : TRUE >> /\ UNCHANGED saved
       /\ pc' = (IF todo = {} THEN "done" ELSE "draw") /\ UNCHANGED <<mode, todo, settings, calls>>
\* with both, everything is displayed first and saved then
Finish == /\ pc = "done"
          /\ IF mode = "both" /\ settings = "own" THEN pc' = "draw" /\ settings' = "print" /\ todo' = calls[Len(calls)].qs
             ELSE pc' = "idle" /\ settings' = "own" /\ UNCHANGED todo
          /\ UNCHANGED <<mode, open, shown, saved, calls>>
FNext == (\E m \in {"show", "save", "both", "neither"}, qs \in SUBSET Quantities \ {{}} : Begin(m, qs)) \/ (\E x \in Quantities : Draw(x)) \/ Out \/ Finish
FSpec == FInit /\ [][FNext]_fvars
Range(s) == {s[i] : i \in DOMAIN s}
SettingsBack == pc = "idle" => settings = "own"
NothingLeftOpen == pc = "idle" => open = {}
Complete == pc = "idle" /\ Len(calls) > 0 =>
  LET c == calls[Len(calls)] IN /\ Range(shown) = (IF c.mode \in {"show", "both"} THEN c.qs ELSE {})
                                /\ saved = (IF c.mode \in {"save", "both"} THEN c.qs \X Formats ELSE {})
EachOnce == Cardinality(Range(shown)) = Len(shown)
ShownWithOwnSettings == pc = "out" /\ mode = "show" => settings = "own"
=============================================================================
