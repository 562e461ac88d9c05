----------------------------- MODULE LayersTrace ----------------------------
(* Histories of real parameter-free layers. entry: tensors by name (integers), weight: weight by name (text), cfg: geometry. *)
EXTENDS TraceKit, LayerOps
VARIABLES l, cfg, entry, weight, dtype
Opt(d, k) == IF k \in DOMAIN d THEN <<d[k]>> ELSE << >>
Expected(kind, d, e) ==
  CASE kind = "linear" -> LinearOut(e.x, d["weight"], Opt(d, "bias"))
    [] kind = "damped" -> DampedOut(e.x, d["weight"], Opt(d, "bias"), d["dampening"].v[1], e.z, e.Z)
    [] kind = "conv" -> ConvOut(e.x, d["weight"], Opt(d, "bias"), cfg)
\* group norm: y = w * xh + b with xh the normalised value; xh satisfies xh^2 * (SS/n + n*n*eps) = centred^2 (centred times n), sign as centred
GroupOk(d, e) ==
  /\ e.y.s = e.x.s
  /\ \A i \in 1..Len(e.x.v) :
       LET idx == Unravel(i - 1, e.x.s)  G == GroupOf(e.x, cfg.groups, idx)  n == Cardinality(G)
           mean == SumSet(e.x.v, G)  cen == n * e.x.v[i] - mean
           ss == SumSet([j \in 1..Len(e.x.v) |-> (n * e.x.v[j] - mean) * (n * e.x.v[j] - mean)], G)
           w == IF "weight" \in DOMAIN d THEN d["weight"].v[idx[2] + 1] ELSE 1
           b == IF "bias" \in DOMAIN d THEN d["bias"].v[idx[2] + 1] ELSE 0
           u == e.y.v[i] - b * e.S     \* S * w * cen / sqrt(ss / n + n^2 eps)  (the default eps, 0 here, is far below the resolution unless ss = 0)
       IN IF ss = 0 THEN Abs(u) <= 1
          ELSE \* |u| * sqrt(ss/n) = S*|w*cen| : check on integers, with the rounding of u (half a unit each side)
               LET c == Abs(w * cen)  r == ss \div n + cfg.eps * n * n IN
               /\ (w * cen > 0 => u >= 0) /\ (w * cen < 0 => u <= 0) /\ (w * cen = 0 => Abs(u) <= 1)
               /\ (Abs(u) - 2) * (IF Abs(u) > 2 THEN Abs(u) - 2 ELSE 0) * r <= e.S * e.S * c * c
               /\ (Abs(u) + 2) * (Abs(u) + 2) * (r + 1) >= e.S * e.S * c * c
ApplyFails(e) ==
  Clause("output-of-the-current-entries", IF cfg.kind = "group" THEN GroupOk(entry, e) ELSE e.y = Expected(cfg.kind, entry, e))
  \cup Clause("same-type", e.dtype = dtype)
  \cup Clause("no-own-parameters", e.own = 0)
\* the output is affine in every entry: the gradient of <y, g> with respect to element k is the change when that element grows by one
Bump(d, name, k) == [d EXCEPT ![name] = [s |-> @.s, v |-> [@.v EXCEPT ![k] = @ + 1]]]
DotWith(y, g) == SumSeq([i \in DOMAIN y.v |-> y.v[i] * g[i]])
\* (the damping factor counts in units of 1/Z, and the output of the damped layer is scaled by Z)
GradFails(e) ==
  LET base == DotWith(Expected(cfg.kind, entry, e), e.g) IN
  Clause("gradient-reaches-the-entry", \A name \in DOMAIN e.grads :
    \A k \in DOMAIN e.grads[name] : e.grads[name][k] * e.Z = (DotWith(Expected(cfg.kind, Bump(entry, name, k), e), e.g) - base) * (IF name = "dampening" THEN e.Z ELSE 1))
WeightFails(e) == Clause("weights-as-given", e.weights = weight) 
DictFails(e) == Clause("entries-kept", e.entries = entry) \cup Clause("entries-converted", \A k \in DOMAIN e.dtypes : e.dtypes[k] = dtype)
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> Clause("entries-of-the-standard-layer", {e.names[i] : i \in DOMAIN e.names} = {e.want[i] : i \in DOMAIN e.want} /\ e.shapes = e.wantshapes /\ e.own = 0)
                                   \cup Clause("weights-as-given", e.weight = e.askedweight)
              [] e.ev \in {"Set", "Weigh", "Convert"} -> {}
              [] e.ev = "Apply" -> ApplyFails(e)
              [] e.ev = "Grad" -> GradFails(e)
              [] e.ev = "Weights" -> WeightFails(e)
              [] e.ev = "Dict" -> DictFails(e)
              [] e.ev = "Pair" -> Clause(e.clause, NearSeq(e.a, e.b, e.tol))
              [] e.ev = "Reject" -> Clause(e.clause, e.raised)
              [] OTHER -> {"unknown-event"}
E0 == [x \in {} |-> 0]
TraceInit == l = 1 /\ cfg = E0 /\ entry = E0 /\ weight = E0 /\ dtype = ""
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ IF e.ev = "Start" THEN cfg' = e.cfg /\ entry' = e.entries /\ weight' = e.askedweight /\ dtype' = e.dtype
                      ELSE IF e.ev = "Set" THEN entry' = [entry EXCEPT ![e.name] = e.value] /\ UNCHANGED <<cfg, weight, dtype>>
                      ELSE IF e.ev = "Weigh" THEN weight' = [weight EXCEPT ![e.name] = e.value] /\ UNCHANGED <<cfg, entry, dtype>>
                      ELSE IF e.ev = "Convert" THEN dtype' = e.to /\ UNCHANGED <<cfg, entry, weight>>
                      ELSE UNCHANGED <<cfg, entry, weight, dtype>>
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<cfg, entry, weight, dtype>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, entry, weight, dtype>>
=============================================================================
