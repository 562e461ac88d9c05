------------------------------ MODULE ResNetMC ------------------------------
EXTENDS ResNet, TLC, Json, IOUtils, SequencesExt
MCChannels == {<<1>>, <<2>>, <<1, 2>>, <<2, 3>>, <<1, 3>>, <<2, 4>>, <<1, 2, 3>>, <<2, 3, 5>>, <<1, 3, 4>>, <<1, 2, 3, 4>>}
MCBlocks == {<<1>>, <<2>>, <<3>>} \cup {<<a, b>> : a, b \in 1..2} \cup {<<a, b, c>> : a, b, c \in 1..2} \cup {<<1, 1, 1, 1>>, <<2, 1, 1, 2>>}
Grow(a, b) == \* sizes of the particles of the next layer: at least the strided ones of this one
  a \div b
CaseSet == {[ch |-> c, bl |-> b, h |-> h, w |-> w, s |-> s, grow |-> g] :
            c \in MCChannels, b \in MCBlocks, h \in {2, 4, 5, 7, 9}, w \in {3, 6, 8}, s \in {1, 2, 3}, g \in {0, 1}}
OkCase(c) == Len(c.ch) = Len(c.bl) /\ (IF c.h < c.w THEN c.h ELSE c.w) \div Power(c.s, Len(c.ch) - 1) >= 1
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({c \in CaseSet : OkCase(c)}))
=============================================================================
