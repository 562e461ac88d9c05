---------------------------- MODULE ResNetTrace -----------------------------
(* One forward pass of a real network, block by block: cur is the data the next block must be given (all entries), at the
   position <<layer, block>> of the configuration. *)
EXTENDS TraceKit, StrideOps
VARIABLES l, cfg, layer, blk, cur, scored
NLayers == Len(cfg.ch)
NearTensor(a, b) == a.s = b.s /\ NearSeq(a.v, b.v, 1)
\* where the next block sits
AtLayer == IF blk = cfg.bl[layer] THEN layer + 1 ELSE layer
AtBlk == IF blk = cfg.bl[layer] THEN 1 ELSE blk + 1
Handed == IF blk = cfg.bl[layer] THEN StrideAll(cur, <<2, 3>>, <<cfg.s, cfg.s>>, 0) ELSE cur
RECURSIVE Down(_, _, _)
Down(n, s, k) == IF k = 0 THEN n ELSE Down(n \div s, s, k - 1)
BlockFails(e) ==
  IF AtLayer > NLayers THEN {"too-many-blocks"} ELSE
  Clause("given-the-data-so-far", NearTensor(e.in, Handed))
  \cup Clause("channels", e.out.s[2] = cfg.ch[AtLayer])
  \cup Clause("image-size", e.out.s[1] = cfg.B /\ e.out.s[3] = Down(cfg.h, cfg.s, AtLayer - 1) /\ e.out.s[4] = Down(cfg.w, cfg.s, AtLayer - 1) /\ Len(e.out.s) = 4)
  \cup Clause("all-data-alike", \A i \in DOMAIN e.shapes : e.shapes[i][1] = cfg.B /\ e.shapes[i][3] = e.out.s[3] /\ e.shapes[i][4] = e.out.s[4])
  \cup Clause("particles-carried", \A i \in DOMAIN e.states : e.states[i][1] = cfg.n)
\* class scores: pooled maximum per channel of the data after the last block, then the linear map (weights scaled by S)
S == 1000
RECURSIVE MaxOver(_, _, _)
MaxOver(t, from, to) == IF from = to THEN t.v[from] ELSE Max2(t.v[from], MaxOver(t, from + 1, to))
Pool(t, b, c) == LET k == t.s[3] * t.s[4]  i == ((b - 1) * t.s[2] + c - 1) * k IN MaxOver(t, i + 1, i + k)
RECURSIVE Dot(_, _, _, _)
Dot(t, w, b, c) == IF c > t.s[2] THEN 0 ELSE (w[c] * Pool(t, b, c)) \div S + Dot(t, w, b, c + 1)
ScoreFails(e) ==
  Clause("every-block-used", blk = cfg.bl[layer] /\ layer = NLayers)
  \cup Clause("one-row-per-image", e.out.s = <<cfg.B, cfg.classes>>)
  \cup IF e.out.s # <<cfg.B, cfg.classes>> THEN {} ELSE
       Clause("scores-from-the-last-data", \A b \in 1..cfg.B, k \in 1..cfg.classes : Near(e.out.v[(b - 1) * cfg.classes + k], Dot(cur, e.weight[k], b, 1) + e.bias[k], 2 + 2 * cur.s[2]))
Fails(e) == CASE e.ev = "Crash" -> {"crash"}
              [] e.ev = "Start" -> {}
              [] e.ev = "Block" -> BlockFails(e)
              [] e.ev = "Scores" -> ScoreFails(e)
              [] e.ev = "Depends" -> Clause("depends-on-" \o e.on, e.changed)
              [] e.ev = "Pair" -> Clause(e.clause, NearSeq(e.a, e.b, e.tol))
              [] e.ev = "Reject" -> Clause(e.clause, e.raised)
              [] OTHER -> {"unknown-event"}
None == [s |-> << >>, v |-> << >>]
TraceInit == l = 1 /\ cfg = << >> /\ layer = 1 /\ blk = 0 /\ cur = None /\ scored = FALSE
TraceNext == \/ /\ l <= NEvents /\ l' = l + 1
                /\ LET e == Trace[l] IN
                   /\ Report(l, Fails(e))
                   /\ IF e.ev = "Start" THEN cfg' = e.cfg /\ layer' = 1 /\ blk' = 0 /\ cur' = e.data /\ scored' = FALSE
                      ELSE IF e.ev = "Block" /\ AtLayer <= NLayers THEN layer' = AtLayer /\ blk' = AtBlk /\ cur' = e.out /\ UNCHANGED <<cfg, scored>>
                      ELSE UNCHANGED <<cfg, layer, blk, cur, scored>>
             \/ /\ l = NEvents + 1 /\ Done /\ l' = l + 1 /\ UNCHANGED <<cfg, layer, blk, cur, scored>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, layer, blk, cur, scored>>
=============================================================================
