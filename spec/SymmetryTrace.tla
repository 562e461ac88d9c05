---------------------------- MODULE SymmetryTrace ---------------------------
(* Law: two forward passes of real blocks, the second started from the image of the first. Reverse: the second started where the
   first ended, with reversed costates. Energy: energies of the parameters along one path. Values in units of 1/e.unit. *)
EXTENDS TraceKit, SymOps
Tame(s) == \A w \in {"q", "p", "x"} : \A k \in DOMAIN s[w] : \A i \in DOMAIN s[w][k] : \A j \in DOMAIN s[w][k][i] : Abs(s[w][k][i][j]) < 100000000
NearM(a, b, den, tol) == /\ Len(a) = Len(b)
                         /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : Near(a[i][j], den * b[i][j], tol * den)
NearD(a, b, den, tol) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : NearM(a[k], b[k], den, tol)
ImageFails(what, g, s, r, tol) ==
   Clause(what \o "-states", NearD(Act(g, s.q), r.q, 1, tol)) \cup Clause(what \o "-costates", NearD(Times(Act(g, s.p), g.num), r.p, g.den, tol))
   \cup Clause(what \o "-data", NearD(ActData(g, s.x), r.x, 1, tol))
LawFails(e) == IF ~(Tame(e.a0) /\ Tame(e.a1) /\ Tame(e.b0) /\ Tame(e.b1) /\ Abs(e.ea) < 50000000 /\ Abs(e.eb) < 50000000) THEN {"finite"} ELSE
   ImageFails("start", e.g, e.a0, e.b0, 1 + Abs(e.g.num)) \cup ImageFails("end", e.g, e.a1, e.b1, e.tol * (1 + Abs(e.g.num)))
   \cup Clause("times", Near(e.tb * e.g.num, e.ta * e.g.wf * e.g.den, 8))
   \cup Clause("energy", Near(e.ea * e.g.num * e.g.num, e.eb * e.g.wf * e.g.den * e.g.den, e.tol * 4 * (1 + e.g.num * e.g.num)))
ReverseFails(e) == IF ~(Tame(e.a0) /\ Tame(e.a1) /\ Tame(e.b0) /\ Tame(e.b1)) THEN {"finite"} ELSE
   ImageFails("start", e.g, e.a1, e.b0, 2) \cup ImageFails("end", e.g, e.a0, e.b1, e.tol)
EnergyFails(e) == IF \E i \in DOMAIN e.es : Abs(e.es[i]) > 500000000 THEN {"finite"} ELSE
   Clause("positive", \A i \in DOMAIN e.es : e.es[i] >= 0)
   \cup Clause("constant", \A i \in DOMAIN e.es : Near(e.es[i], e.es[1], e.tol))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Law" -> LawFails(e)
              [] e.ev = "Reverse" -> ReverseFails(e)
              [] e.ev = "Energy" -> EnergyFails(e)
              [] OTHER -> {"unknown-event"}
VARIABLE l
TraceInit == l = 1
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l]))
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
