-------------------------------- MODULE Grad --------------------------------
(* Differentiating an integration: a forward sweep that stores the states, then a backward sweep over them. At its end the
   collected derivatives are the derivatives of the loss with respect to every initial state, costate, parameter and the data. *)
EXTENDS GradOps
CONSTANTS Modes, Starts, Lengths, Losses
VARIABLES mode, w, T, tape, g, phase
gvars == <<mode, w, T, tape, g, phase>>
GInit == /\ mode \in Modes /\ w \in Losses /\ T \in Lengths /\ \E s \in Starts : tape = <<s>>
         /\ g = << >> /\ phase = "forward"
Th(s) == IF mode = "frozen" THEN Pars(mode, tape[1]) ELSE Pars(mode, s)
Last(s) == s[Len(s)]
Forward == /\ phase = "forward" /\ Len(tape) <= T /\ tape' = Append(tape, Moved(Last(tape), Th(Last(tape))))
           /\ UNCHANGED <<mode, w, T, g, phase>>
Seed == /\ phase = "forward" /\ Len(tape) = T + 1 /\ g' = Seeds(Last(tape), w) /\ phase' = "backward"
        /\ UNCHANGED <<mode, w, T, tape>>
Backward == /\ phase = "backward" /\ Len(tape) > 1
            /\ LET s == tape[Len(tape) - 1] IN g' = BackStep(mode, s, Th(s), g)
            /\ tape' = SubSeq(tape, 1, Len(tape) - 1) /\ UNCHANGED <<mode, w, T, phase>>
Finish == /\ phase = "backward" /\ Len(tape) = 1 /\ g' = Penalised(mode, tape[1], w, g) /\ phase' = "done"
          /\ UNCHANGED <<mode, w, T, tape>>
GNext == Forward \/ Seed \/ Backward \/ Finish
GSpec == GInit /\ [][GNext]_gvars
s0 == tape[1]
Unit(k, i) == IF k \in {"q", "p"} THEN [Bars(s0) EXCEPT ![k][i] = 1] ELSE [Bars(s0) EXCEPT ![k] = 1]
Slots == {<<k, i>> : k \in {"q", "p"}, i \in 1..Len(s0.q)} \cup {<<"x", 1>>, <<"A", 1>>, <<"b", 1>>}
At(r, sl) == IF sl[1] \in {"q", "p"} THEN r[sl[1]][sl[2]] ELSE r[sl[1]]
\* the backward sweep agrees with the forward derivative in every direction
ChainRule == phase = "done" => \A sl \in Slots : At(g, sl) = Jet(mode, s0, Unit(sl[1], sl[2]), T, w)
\* the result is what the recursive definition says, and the loss is the one of the stored path
Recursive == phase = "done" => g = Back(mode, s0, T, w)
\* one step: the loss is quadratic in the data and the direct parameters, so that central differences are exact
Shift(sl, h) == IF sl[1] \in {"q", "p"} THEN [s0 EXCEPT ![sl[1]][sl[2]] = @ + h] ELSE [s0 EXCEPT ![sl[1]] = @ + h]
Differences == phase = "done" /\ (T = 1 \/ mode = "direct") => \A sl \in Slots :
   (sl[1] = "x" \/ (T = 1 /\ mode = "direct" /\ sl[1] \in {"A", "b"}))
     => Loss(mode, Shift(sl, 1), T, w) - Loss(mode, Shift(sl, -1), T, w) = 2 * At(g, sl)
\* what does not enter has no derivative
Unused == phase = "done" => /\ (mode = "direct" => w.q # 0 \/ w.p # 0 \/ (g.q = Bars(s0).q /\ g.p = Bars(s0).p))
                            /\ (mode # "direct" => g.A = 0 /\ g.b = 0)
=============================================================================
