----------------------------- MODULE Integrators ----------------------------
(* Integrators are created one after the other, from option objects that the caller may share between them, and used in
   any order. Creating or using one never changes the options of the caller or the settings of another. *)
EXTENDS IntegOps
CONSTANTS Methods, Objects, StepsOpt, Defaults, MaxInt
VARIABLES caller, made, used
ivars == <<caller, made, used>>
IInit == caller \in [Objects -> StepsOpt \cup {None}] /\ made = << >> /\ used = << >>
\* obj = None: no option object given
Make(m, o, d) == /\ Len(made) < MaxInt
                 /\ made' = Append(made, [method |-> m, obj |-> o, dflt |-> d,
                                          step |-> Effective(m, IF o = None THEN None ELSE caller[o], d)])
                 /\ UNCHANGED <<caller, used>>
Use(i) == /\ Len(used) < MaxInt /\ i \in DOMAIN made
          /\ used' = Append(used, [i |-> i, evals |-> IF made[i].method \in Fixed THEN Evals(made[i].method, made[i].step, <<0, 48>>) ELSE << >>])
          /\ UNCHANGED <<caller, made>>
INext == (\E m \in Methods, o \in Objects \cup {None}, d \in Defaults : Make(m, o, d)) \/ (\E i \in 1..MaxInt : Use(i))
ISpec == IInit /\ [][INext]_ivars
\* the step an integrator uses depends on its own construction only
Independent == \A i \in DOMAIN made : made[i].step = Effective(made[i].method, IF made[i].obj = None THEN None ELSE caller[made[i].obj], made[i].dflt)
AdaptiveFree == \A i \in DOMAIN made : made[i].method \in Adaptive /\ (made[i].obj = None \/ caller[made[i].obj] = None) => made[i].step = None
Counts == \A k \in DOMAIN used : LET x == made[used[k].i] IN x.method \in Fixed /\ x.step # None =>
   Len(used[k].evals) = ((48 + x.step - 1) \div x.step) * (CASE x.method = "euler" -> 1 [] x.method = "midpoint" -> 2 [] x.method = "rk4" -> 4)
CallerKept == [][caller' = caller]_ivars
=============================================================================
