------------------------------- MODULE GradOps ------------------------------
(* Exact derivatives of an integrated shooting model. N particles with one linear layer, integrated by steps of length one;
   the regularisation weight is 1/N, so that all numbers are integers:
       q' = A q + b     p' = - A p     x' = A x + b     A = sum p q     b = sum p
   "particles": A, b follow the particles in every step; "frozen": those of the first step; "direct": they are parameters.
   The loss is  wq * sum of final q  +  wp * sum of final p  +  wx * final x  +  we * (A0^2 + b0^2).
   Jet(...) carries the derivative along one direction forward (dual numbers); Back(...) collects the derivatives with respect
   to everything backwards along the stored states, the way autograd does. *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Total(s) == SumTo(s, Len(s))
DotP(a, b) == Total([i \in 1..Len(a) |-> a[i] * b[i]])
Pars(mode, s) == IF mode = "direct" THEN [A |-> s.A, b |-> s.b] ELSE [A |-> DotP(s.p, s.q), b |-> Total(s.p)]
\* one step with parameters th
Moved(s, th) == [s EXCEPT !.q = [i \in 1..Len(s.q) |-> s.q[i] + th.A * s.q[i] + th.b],
                          !.p = [i \in 1..Len(s.p) |-> s.p[i] - th.A * s.p[i]],
                          !.x = s.x + th.A * s.x + th.b]
\* the states at times 0..T
RECURSIVE Path(_, _, _, _)
Path(mode, s, th0, T) == IF T = 0 THEN <<s>>
                         ELSE <<s>> \o Path(mode, Moved(s, IF mode = "frozen" THEN th0 ELSE Pars(mode, s)), th0, T - 1)
Loss(mode, s0, T, w) == LET e == Path(mode, s0, Pars(mode, s0), T)[T + 1]
                            th == Pars(mode, s0)
                        IN w.q * Total(e.q) + w.p * Total(e.p) + w.x * e.x + w.e * (th.A * th.A + th.b * th.b)

\* ---- forward: dual numbers <<value, derivative>>
DPars(mode, s, d) == IF mode = "direct" THEN [A |-> d.A, b |-> d.b]
                     ELSE [A |-> DotP(d.p, s.q) + DotP(s.p, d.q), b |-> Total(d.p)]
DMoved(s, d, th, dt) == [d EXCEPT !.q = [i \in 1..Len(s.q) |-> d.q[i] + dt.A * s.q[i] + th.A * d.q[i] + dt.b],
                                  !.p = [i \in 1..Len(s.p) |-> d.p[i] - dt.A * s.p[i] - th.A * d.p[i]],
                                  !.x = d.x + dt.A * s.x + th.A * d.x + dt.b]
RECURSIVE JetRun(_, _, _, _, _, _)
JetRun(mode, s, d, th0, dt0, T) ==
  IF T = 0 THEN d
  ELSE LET th == IF mode = "frozen" THEN th0 ELSE Pars(mode, s)
           dt == IF mode = "frozen" THEN dt0 ELSE DPars(mode, s, d)
       IN JetRun(mode, Moved(s, th), DMoved(s, d, th, dt), th0, dt0, T - 1)
Jet(mode, s, d, T, w) ==
  LET th == Pars(mode, s)
      dt == DPars(mode, s, d)
      e == JetRun(mode, s, d, th, dt, T)
  IN w.q * Total(e.q) + w.p * Total(e.p) + w.x * e.x + 2 * w.e * (th.A * dt.A + th.b * dt.b)

\* ---- backward: derivatives of the loss with respect to the state before the step, given those after it
Bars(s) == [q |-> [i \in 1..Len(s.q) |-> 0], p |-> [i \in 1..Len(s.p) |-> 0], x |-> 0, A |-> 0, b |-> 0]
\* derivatives that arrived at the parameters are handed on to what they were computed from
Hand(mode, s, g) == IF mode = "direct" THEN g
                    ELSE [g EXCEPT !.q = [i \in 1..Len(s.q) |-> @[i] + g.A * s.p[i]],
                                   !.p = [i \in 1..Len(s.p) |-> @[i] + g.A * s.q[i] + g.b], !.A = 0, !.b = 0]
BackStep(mode, s, th, g) ==
  LET h == [q |-> [i \in 1..Len(s.q) |-> g.q[i] * (1 + th.A)], p |-> [i \in 1..Len(s.p) |-> g.p[i] * (1 - th.A)], x |-> g.x * (1 + th.A),
            A |-> g.A + DotP(g.q, s.q) - DotP(g.p, s.p) + g.x * s.x, b |-> g.b + Total(g.q) + g.x]
  IN IF mode = "particles" THEN Hand(mode, s, h) ELSE h
Seeds(s, w) == [Bars(s) EXCEPT !.q = [i \in 1..Len(s.q) |-> w.q], !.p = [i \in 1..Len(s.p) |-> w.p], !.x = w.x]
Penalised(mode, s0, w, g) == LET th == Pars(mode, s0) IN
  Hand(mode, s0, [g EXCEPT !.A = @ + 2 * w.e * th.A, !.b = @ + 2 * w.e * th.b])
RECURSIVE BackRun(_, _, _, _, _)
BackRun(mode, path, th0, k, g) == IF k = 0 THEN g
  ELSE BackRun(mode, path, th0, k - 1, BackStep(mode, path[k], IF mode = "frozen" THEN th0 ELSE Pars(mode, path[k]), g))
Back(mode, s0, T, w) == LET path == Path(mode, s0, Pars(mode, s0), T)
                        IN Penalised(mode, s0, w, BackRun(mode, path, Pars(mode, s0), T, Seeds(s0, w)))
=============================================================================
