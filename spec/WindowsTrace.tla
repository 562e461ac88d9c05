---------------------------- MODULE WindowsTrace -----------------------------
(* Numbers are integers in units of 1e-5. cur: index of the time the next piece has to start at. *)
EXTENDS TraceKit, SequencesExt
VARIABLES l, cfg, cur, last
Tol == 3
Flat(m) == FoldLeft(LAMBDA a, b : a \o b, << >>, m)
NearMat(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : NearSeq(a[i], b[i], tol)
EndOf(k, n) == IF cfg.c <= 0 \/ k + cfg.c >= n THEN n ELSE k + cfg.c
\* the times of a piece from index k: the original ones or the same number of times from the beginning
TimesOf(k, n) == IF cfg.c > 0 /\ cfg.zero = 1 THEN SubSeq(cfg.times, 1, EndOf(k, n) - k) ELSE SubSeq(cfg.times, k + 1, EndOf(k, n))
PieceFails(e) == LET n == Len(cfg.times) IN
  Clause("piece-within-the-times", cur < n - 1)
  \cup (IF cur >= n - 1 THEN {} ELSE
        Clause("times-of-the-piece", NearSeq(e.times, TimesOf(cur, n), Tol))
        \cup (IF ~cfg.predict THEN {} ELSE
              Clause("starts-where-the-last-ended", NearSeq(e.start, IF cur = 0 THEN cfg.start ELSE last, Tol))
              \cup Clause("value-at-every-time", Len(e.out) = EndOf(cur, n) - cur)))
AllFails(e) == Clause("all-times-covered", cur = Len(cfg.times) - 1)
  \cup (IF ~cfg.predict THEN {} ELSE Clause("prediction-of-the-pieces", NearMat(e.pred, e.pieces, Tol)) \cup Clause("penalty-of-the-start", Near(e.penalty, e.first, Tol)))
RefusedFails(e) == Clause("no-progress-is-refused", e.refused)
\* windows of the trajectory, every value recognised by its content: index (0-based) or -1
WindowFails(e) ==
  Clause("consecutive", \A m \in DOMAIN e.idx : \A i \in DOMAIN e.idx[m] : e.idx[m][i] = e.idx[m][1] + i - 1)
  \cup Clause("within-the-data", \A m \in DOMAIN e.idx : e.idx[m][1] >= 0 /\ e.idx[m][1] + cfg.c <= cfg.t)
  \cup Clause("length", \A m \in DOMAIN e.idx : Len(e.idx[m]) = e.len)
  \cup Clause("start-is-first", \A m \in DOMAIN e.idx : e.first[m] = e.idx[m][1])
  \cup Clause("number-of-windows", Len(e.idx) = e.want /\ Len(e.first) = e.want)
  \cup Clause("times-from-the-beginning", NearSeq(e.times, SubSeq(cfg.times, 1, e.len), Tol))
\* how often an index may be drawn follows the distance covered from it, in units of the smallest distance
Occurs(e, i) == Cardinality({k \in DOMAIN e.array : e.array[k] = i - 1})
ArrayFails(e) == Clause("by-distance", \A i \in 1..(cfg.t - cfg.c) : Abs(2 * Occurs(e, i) * e.least - 2 * e.dist[i]) <= e.least + 6 * Occurs(e, i) + 6)
  \cup Clause("only-full-windows", \A k \in DOMAIN e.array : e.array[k] \in 0..(cfg.t - cfg.c - 1))
FixedFails(e) == Clause("same-sample-again", e.a = e.b)
VariedFails(e) == Clause("drawn-anew", e.distinct > 1)
Sum(s) == FoldLeft(+, 0, s)
Sq(x) == (Abs(x) \div 20) * (Abs(x) \div 20)
LossFails(e) ==
  Clause("distance-of-the-norm", IF e.norm = "l1" THEN \A i \in DOMAIN e.d : e.n[i] = Abs(e.d[i][1]) + Abs(e.d[i][2])
                                 ELSE \A i \in DOMAIN e.d : Near(Sq(e.n[i]), Sq(e.d[i][1]) + Sq(e.d[i][2]), e.n[i] \div 4 + 20))
  \cup Clause("mean-similarity", Near(e.sim * Len(e.d) * (IF e.norm = "l1" THEN 2 ELSE 1), e.w * Sum(e.n), 8 * (e.w + 1) * Len(e.d)))
  \cup Clause("norm-loss", IF e.off THEN e.normloss = 0 ELSE Near(e.normloss, (e.penalty * e.nw) \div 100, 3 + e.nw))
  \cup Clause("loss-is-the-sum", Near(e.loss, e.sim + e.normloss, 5))
\* masked times of an autoencoder
MaskFails(e) == Clause("mask", \A n \in DOMAIN e.idx : /\ Len(e.idx[n]) = cfg.t - cfg.c - 1
                                                       /\ \A k \in DOMAIN e.idx[n] : e.idx[n][k] \in (0..(cfg.t - 1)) \ {e.eval}
                                                       /\ \A k \in 1..(Len(e.idx[n]) - 1) : e.idx[n][k] < e.idx[n][k + 1])
  \cup Clause("taken-from-the-trajectory", \A n \in DOMAIN e.idx : \A k \in DOMAIN e.idx[n] : NearSeq(e.out[n][k], e.full[n][e.idx[n][k] + 1], Tol))
  \cup Clause("one-picture-per-time", e.shape = <<Len(e.idx), cfg.t - cfg.c - 1, 1, 28, 28>> /\ e.fullshape = <<Len(e.idx), cfg.t, 1, 28, 28>>)
MapFails(e) == Clause("image-of-the-input", e.exact) \cup Clause("within-the-range", \A i \in DOMAIN e.x : Abs(e.x[i]) <= e.max + Tol)
  \cup Clause("evenly-spaced", ~e.uniform \/ \A i \in DOMAIN e.x : Near(e.x[i] * (Len(e.x) - 1), -e.max * (Len(e.x) - 1) + 2 * e.max * (i - 1), Tol * Len(e.x)))
  \cup Clause("random", e.uniform \/ Cardinality({e.x[i] : i \in DOMAIN e.x}) = Len(e.x))
  \cup Clause("number", Len(e.x) = cfg.t)
RingFails(e) == Clause("inner-then-outer", Len(e.r) = cfg.t + cfg.c /\ \A i \in DOMAIN e.r : IF i <= cfg.t THEN e.label[i] = 0 /\ e.r[i] >= e.in[1] - Tol /\ e.r[i] <= e.in[2] + Tol
                                                                                            ELSE e.label[i] = 1 /\ e.r[i] >= e.outr[1] - Tol /\ e.r[i] <= e.outr[2] + Tol)
  \cup Clause("balanced-sample", e.picked = <<e.n, e.n>>)
  \cup Clause("as-arrays", e.arrays)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Piece" -> PieceFails(e)
              [] e.ev = "All" -> AllFails(e)
              [] e.ev = "Refused" -> RefusedFails(e)
              [] e.ev = "Window" -> WindowFails(e)
              [] e.ev = "Array" -> ArrayFails(e)
              [] e.ev = "Fixed" -> FixedFails(e)
              [] e.ev = "Varied" -> VariedFails(e)
              [] e.ev = "Loss" -> LossFails(e)
              [] e.ev = "Mask" -> MaskFails(e)
              [] e.ev = "Map" -> MapFails(e)
              [] e.ev = "Ring" -> RingFails(e)
              [] e.ev = "Start" -> {}
              [] OTHER -> {"unknown-event"}
Step(e) == CASE e.ev = "Start" -> cfg' = e /\ cur' = 0 /\ last' = << >>
             [] e.ev = "Piece" -> cur' = EndOf(cur, Len(cfg.times)) - 1 /\ last' = (IF cfg.predict /\ Len(e.out) > 0 THEN e.out[Len(e.out)] ELSE last) /\ UNCHANGED cfg
             [] OTHER -> UNCHANGED <<cfg, cur, last>>
TraceInit == l = 1 /\ cfg = <<>> /\ cur = 0 /\ last = << >>
TraceNext == \/ l <= NEvents /\ l' = l + 1 /\ Report(l, Fails(Trace[l])) /\ Step(Trace[l])
             \/ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<cfg, cur, last>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, cur, last>>
=============================================================================
