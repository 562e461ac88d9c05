------------------------------ MODULE WindowsMC ------------------------------
EXTENDS Windows, TLC, Json, IOUtils, SequencesExt
Chunked == {[kind |-> "chunks", t |-> n, c |-> c, zero |-> z] : n \in 2..9, c \in -1..11, z \in {0, 1}}
CaseSet == Chunked \cup {[kind |-> "predict", t |-> n, c |-> c, zero |-> z] : n \in 3..7, c \in {0, 2, 3, 4, 8}, z \in {0, 1}}
           \cup {[kind |-> "batch", t |-> n, c |-> c, zero |-> z] : n \in {6, 9, 14}, c \in 2..4, z \in {0, 1}}
           \cup {[kind |-> "data", t |-> n, c |-> c, zero |-> z] : n \in {8, 12}, c \in 2..4, z \in {0, 1}}
           \cup {[kind |-> "loss", t |-> n, c |-> c, zero |-> z] : n \in {3, 4}, c \in {1, 2}, z \in {0, 1}}
           \cup {[kind |-> "mask", t |-> n, c |-> c, zero |-> z] : n \in {5, 8}, c \in 0..3, z \in {0, 1}}
           \cup {[kind |-> "map", t |-> n, c |-> c, zero |-> z] : n \in {5, 11}, c \in {1, 2, 3}, z \in {0, 1}}
           \cup {[kind |-> "rings", t |-> n, c |-> c, zero |-> z] : n \in {4, 9}, c \in {3, 5}, z \in {0, 1}}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
