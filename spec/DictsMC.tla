------------------------------ MODULE DictsMC -------------------------------
EXTENDS Dicts, TLC, Json, IOUtils, SequencesExt
BlockSizes == UNION {[1..n -> 1..3] : n \in 1..3}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(
         {[rank |-> r, dim |-> d, other |-> o, sizes |-> sz, keys |-> nk] :
            r \in 1..5, d \in 0..4, o \in 1..2, sz \in BlockSizes, nk \in 1..2}))
View == <<coll, refused, joined, parts, dim>>
=============================================================================
