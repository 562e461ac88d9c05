---------------------------- MODULE FiguresTrace -----------------------------
(* Call: what is asked for and the data it is asked of. Figure: one figure at the moment it was shown or written: lines (x and y
   coordinates), arrows, label. Return: what the call left behind. Numbers are integers in units of 1e-5. *)
EXTENDS TraceKit, SequencesExt
VARIABLES l, call, figs
Tol == 2
NearLine(a, b) == NearSeq(a.x, b.x, Tol) /\ NearSeq(a.y, b.y, Tol)
\* the same lines, in any order
Times(a, s) == Cardinality({i \in DOMAIN s : NearLine(a, s[i])})
SameLines(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Times(a[i], a) = Times(a[i], b)
Col(m, j) == [i \in DOMAIN m |-> m[i][j]]
\* marks and arrows of particles at q with momenta p
Direct(ax, q, p) == /\ Len(ax.lines) = 1 /\ NearLine(ax.lines[1], [x |-> Col(q, 1), y |-> Col(q, 2)])
                    /\ Len(ax.arrows) = 1 /\ NearSeq(ax.arrows[1].x, Col(q, 1), Tol) /\ NearSeq(ax.arrows[1].y, Col(q, 2), Tol)
                    /\ NearSeq(ax.arrows[1].u, Col(p, 1), Tol) /\ NearSeq(ax.arrows[1].v, Col(p, 2), Tol)
\* coarse numbers for products: units of 1e-3
R(x) == x \div 100
Dot(a, b) == FoldLeft(+, 0, [i \in DOMAIN a |-> R(a[i]) * R(b[i])])
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Pt(s, i) == <<s.x[i], s.y[i]>>
\* a projection to the plane: with at most three particles all distances, and products of momenta with differences, are kept
Projected(ax, q, p) == /\ Len(ax.lines) = 1 /\ Len(ax.lines[1].x) = Len(q) /\ Len(ax.arrows) = 1 /\ Len(ax.arrows[1].u) = Len(q)
  /\ NearSeq(ax.arrows[1].x, ax.lines[1].x, Tol) /\ NearSeq(ax.arrows[1].y, ax.lines[1].y, Tol)
  /\ \A i, j \in DOMAIN q : LET d == Minus(q[i], q[j]) e == Minus(Pt(ax.lines[1], i), Pt(ax.lines[1], j)) IN
        /\ Near(Dot(d, d), Dot(e, e), 60000)
        /\ \A k \in DOMAIN q : Near(Dot(p[k], d), Dot(<<ax.arrows[1].u[k], ax.arrows[1].v[k]>>, e), 60000)
HigherOrder(ax, q, p) == IF Len(q[1]) > 2 /\ Len(q) > 1 THEN Projected(ax, q, p) ELSE Direct(ax, q, p)
Medium(e) == IF call.mode = "save" THEN e.how = "save" ELSE IF call.mode = "both" THEN e.how \in {"show", "save"} ELSE e.how = "show"
Panels(e, lines, q1, p1, q2, p2) ==
  Clause("panels", Len(e.axes) = (IF call.particles THEN 3 ELSE 1))
  \cup (IF Len(e.axes) = 0 THEN {} ELSE Clause("trajectories", SameLines(e.axes[1].lines, lines) /\ e.axes[1].arrows = << >>))
  \cup (IF Len(e.axes) = 3 /\ call.particles THEN Clause("particles", Direct(e.axes[2], q1, p1))
                               \cup Clause("higher-order", IF q2 = << >> THEN e.axes[3].lines = << >> /\ e.axes[3].arrows = << >> ELSE HigherOrder(e.axes[3], q2, p2)) ELSE {})
TemporalFails(e) ==
  Clause("known-quantity", \E i \in DOMAIN call.series : call.series[i].label = e.label)
  \cup Clause("drawn-as-recorded", \A i \in DOMAIN call.series : call.series[i].label = e.label =>
                                     Len(e.axes) = 1 /\ SameLines(e.axes[1].lines, [j \in DOMAIN call.series[i].ys |-> [x |-> call.t, y |-> call.series[i].ys[j]]]))
EvolutionFails(e) == IF e.frame > Len(call.t) THEN {"frame-of-the-record"} ELSE LET k == e.frame c == call IN
  Panels(e, c.truth \o [n \in DOMAIN c.paths |-> [x |-> SubSeq(c.paths[n].x, 1, k), y |-> SubSeq(c.paths[n].y, 1, k)]], c.q1[k], c.p1[k], IF c.q2 = << >> THEN << >> ELSE c.q2[k], IF c.q2 = << >> THEN << >> ELSE c.p2[k])
FigureFails(e) ==
  Clause("asked-for", call.mode # "neither" /\ Medium(e))
  \cup Clause("settings-of-the-medium", e.own = (e.how = "show"))
  \cup Clause("title", e.titled)
  \cup (CASE call.kind = "temporal" -> TemporalFails(e)
          [] call.kind = "basic" -> Panels(e, call.truth, call.q1, call.p1, call.q2, call.p2)
          [] OTHER -> EvolutionFails(e))
Count(how, lab) == Cardinality({i \in DOMAIN figs : figs[i].how = how /\ figs[i].label = lab})
Want(how) == CASE call.mode = "neither" -> 0 [] call.mode \in {"none", "show"} -> (IF how = "show" THEN 1 ELSE 0) [] call.mode = "save" -> (IF how = "save" THEN 1 ELSE 0) [] OTHER -> 1
ReturnFails(e) ==
  Clause("settings-back", e.settings) \cup Clause("data-untouched", e.data) \cup Clause("nothing-left-open", call.mode # "save" \/ e.open = 0)
  \cup Clause("all-formats", \A i \in DOMAIN figs : figs[i].how = "save" /\ call.kind # "evolution" => figs[i].formats = <<"pdf", "pgf", "png">>)
  \cup Clause("every-quantity-once", CASE call.kind = "temporal" -> \A h \in {"show", "save"}, i \in DOMAIN call.series : Count(h, call.series[i].label) = Want(h)
                                       [] call.kind = "basic" -> \A h \in {"show", "save"} : Count(h, call.label) = Want(h)
                                       [] call.mode = "neither" -> figs = << >>
                                       [] call.mode = "save" -> [i \in DOMAIN figs |-> figs[i].frame] = [i \in 1..Len(call.t) |-> i]
                                       [] OTHER -> [i \in DOMAIN figs |-> figs[i].frame] = [i \in 1..Min2(Len(call.t), call.max) |-> i])
  \cup Clause("files-told-apart", Cardinality({figs[i].file : i \in {j \in DOMAIN figs : figs[j].how = "save"}}) = Cardinality({j \in DOMAIN figs : figs[j].how = "save"}))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Figure" -> FigureFails(e)
              [] e.ev = "Return" -> ReturnFails(e)
              [] e.ev \in {"Start", "Call"} -> {}
              [] OTHER -> {"unknown-event"}
Step(e) == CASE e.ev = "Start" -> call' = <<>> /\ figs' = << >>
             [] e.ev = "Call" -> call' = e /\ figs' = << >>
             [] e.ev = "Figure" -> figs' = Append(figs, [how |-> e.how, label |-> e.label, frame |-> e.frame, formats |-> e.formats, file |-> e.file]) /\ UNCHANGED call
             [] OTHER -> UNCHANGED <<call, figs>>
TraceInit == l = 1 /\ call = <<>> /\ figs = << >>
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l])) /\ Step(Trace[l])
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<call, figs>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, call, figs>>
=============================================================================
