----------------------------- MODULE InitsTrace -----------------------------
(* Histories of real initialisers. stream: noise of the calls since seeding; memo: the streams seen for earlier seedings of
   the same behaviour (same requests in the same order). Noise is normalised: minus centre, divided by the magnitude. *)
EXTENDS TraceKit
VARIABLES l, stream, memo
FixedOk(e) == CASE e.what = "zero" -> \A i \in DOMAIN e.v : e.v[i] = 0
                [] e.what = "const" -> \A i \in DOMAIN e.v : e.v[i] = e.const /\ e.exactly
                [] OTHER -> TRUE
MakeFails(e) ==
  Clause("shape-as-requested", e.shape = e.want)
  \cup Clause("trainable", e.trainable)
  \cup Clause("type-as-requested", e.dtype = e.wantdtype)
  \cup Clause("zero-or-constant", FixedOk(e))
  \cup IF e.what # "noise" THEN {} ELSE
       Clause("fresh-noise", \A i \in DOMAIN stream : Len(stream[i]) > 1 /\ Len(e.noise) > 1 => stream[i] # e.noise)
       \cup Clause("entries-differ", LET k == Cardinality({e.noise[i] : i \in DOMAIN e.noise}) n == Len(e.noise) IN n > 1 => k > 1 /\ k >= n - 1)
       \cup Clause("reproducible-from-the-seed", memo # << >> /\ Len(stream) < Len(memo) =>
              LET w == memo[Len(stream) + 1] IN Len(w) = Len(e.noise) /\ \A i \in DOMAIN w : Near(w[i], e.noise[i], 20))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev \in {"Start", "Seed"} -> {}
              [] e.ev = "Make" -> MakeFails(e)
              [] e.ev = "Stats" -> Clause("magnitude", Near(e.std, 1000, 60)) \cup Clause("centred", Near(e.mean, 0, 60)) \cup Clause("independent", Near(e.corr, 0, 60))
              [] e.ev = "Pair" -> Clause(e.clause, NearSeq(e.a, e.b, e.tol))
              [] e.ev = "Reject" -> Clause(e.clause, e.raised)
              [] OTHER -> {"unknown-event"}
TraceInit == l = 1 /\ stream = << >> /\ memo = << >>
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ stream' = IF e.ev \in {"Start", "Seed"} THEN << >> ELSE IF e.ev = "Make" /\ e.what = "noise" THEN Append(stream, e.noise) ELSE stream
                   /\ memo' = IF e.ev = "Start" THEN << >> ELSE IF e.ev = "Seed" THEN stream ELSE memo
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<stream, memo>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, stream, memo>>
=============================================================================
