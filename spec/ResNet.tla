------------------------------- MODULE ResNet -------------------------------
(* The residual network as a machine that carries data (a set of channel tags and an image size) through layers of
   blocks, with striding between layers. The first block of a layer brings the missing channels (zero data), every other
   block hands on. Scores are read off after the last block. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS ChannelLists, BlockLists, HeightSet, StrideSet
VARIABLES cfg, layer, blk, chans, height, touched, scores
rvars == <<cfg, layer, blk, chans, height, touched, scores>>
NLayers == Len(cfg.ch)
RInit == /\ cfg \in [ch : ChannelLists, bl : BlockLists, h : HeightSet, s : StrideSet] /\ Len(cfg.bl) = Len(cfg.ch)
         /\ layer = 1 /\ blk = 0 /\ chans = cfg.ch[1] /\ height = cfg.h /\ touched = {} /\ scores = FALSE
New == IF layer = 1 THEN 0 ELSE cfg.ch[layer] - cfg.ch[layer - 1]
RunBlock == /\ ~ scores /\ blk < cfg.bl[layer]
            /\ blk' = blk + 1 /\ touched' = touched \cup {<<layer, blk + 1>>}
            /\ chans' = IF blk = 0 THEN chans + New ELSE chans
            /\ UNCHANGED <<cfg, layer, height, scores>>
StrideDown == /\ ~ scores /\ blk = cfg.bl[layer] /\ layer < NLayers /\ height \div cfg.s >= 1
              /\ layer' = layer + 1 /\ blk' = 0 /\ height' = height \div cfg.s
              /\ UNCHANGED <<cfg, chans, touched, scores>>
Classify == /\ ~ scores /\ blk = cfg.bl[layer] /\ layer = NLayers /\ scores' = TRUE
            /\ UNCHANGED <<cfg, layer, blk, chans, height, touched>>
RNext == RunBlock \/ StrideDown \/ Classify
RSpec == RInit /\ [][RNext]_rvars
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
ChannelsRight == blk > 0 => chans = cfg.ch[layer]
SizeRight == height = cfg.h \div Power(cfg.s, layer - 1)
EveryBlockUsed == scores => touched = {<<i, j>> : i \in 1..NLayers, j \in 1..10} \cap UNION {{<<i, j>> : j \in 1..cfg.bl[i]} : i \in 1..NLayers}
=============================================================================
