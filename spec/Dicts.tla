------------------------------- MODULE Dicts --------------------------------
(* Dictionaries of blocks, as handed from shooting block to shooting block. A collection is a sequence of blocks (in the
   order the implementation iterates them), a block is a name and a function from keys to tensors.
   Machine: blocks are merged in one by one (a taken name is refused), then the collection is concatenated along one
   dimension and split again. *)
EXTENDS Tensor

CONSTANTS Names, KeySet, Ranks, SizesD, SizesO, MaxBlocks

VARIABLES coll,     \* sequence of [b |-> name, t |-> [KeySet -> Tensor]]
          refused,  \* names refused so far
          joined,   \* the concatenated block, or <<>>
          parts,    \* the result of splitting, or <<>>
          dim, rank, other
dvars == <<coll, refused, joined, parts, dim, rank, other>>

NamesOf(c) == {c[i].b : i \in DOMAIN c}
Values(i, k, n) == [j \in 1..n |-> 1000 * i + 100 * (IF k = CHOOSE x \in KeySet : TRUE THEN 0 ELSE 1) + j]
MkShape(r, d, nd, o) == [x \in 1..r |-> IF x = d + 1 THEN nd ELSE o]
MkBlock(i, b, r, d, nd, o) == [b |-> b, t |-> [k \in KeySet |-> LET s == MkShape(r, d, nd, o) IN [s |-> s, v |-> Values(i, k, Numel(s))]]]

DInit == coll = <<>> /\ refused = {} /\ joined = <<>> /\ parts = <<>>
         /\ rank \in Ranks /\ other \in SizesO /\ dim \in 0..(rank - 1)
Merge == /\ joined = <<>> /\ Len(coll) < MaxBlocks
         /\ \E b \in Names, nd \in SizesD :
              IF b \in NamesOf(coll)
              THEN refused' = refused \cup {b} /\ UNCHANGED coll
              ELSE coll' = Append(coll, MkBlock(Len(coll) + 1, b, rank, dim, nd, other)) /\ UNCHANGED refused
         /\ UNCHANGED <<joined, parts, dim, rank, other>>
Concat == /\ joined = <<>> /\ coll # <<>>
          /\ joined' = [k \in KeySet |-> CatAll([i \in DOMAIN coll |-> coll[i].t[k]], dim)]
          /\ UNCHANGED <<coll, refused, parts, dim, rank, other>>
RECURSIVE Before(_, _, _, _)
Before(c, i, k, d) == IF i = 1 THEN 0 ELSE Before(c, i - 1, k, d) + c[i - 1].t[k].s[d + 1]
Split == /\ joined # <<>> /\ parts = <<>>
         /\ parts' = [i \in DOMAIN coll |-> [b |-> coll[i].b,
                        t |-> [k \in KeySet |-> Slice(joined[k], dim, Before(coll, i, k, dim), coll[i].t[k].s[dim + 1], 1)]]]
         /\ UNCHANGED <<coll, refused, joined, dim, rank, other>>
DNext == Merge \/ Concat \/ Split
DSpec == DInit /\ [][DNext]_dvars

UniqueNames == \A i, j \in DOMAIN coll : i # j => coll[i].b # coll[j].b
SplitInvertsConcat == parts # <<>> => parts = coll
NothingLost == joined # <<>> => \A k \in KeySet : Len(joined[k].v) = Numel(joined[k].s) /\
                 {joined[k].v[j] : j \in DOMAIN joined[k].v} = UNION {{coll[i].t[k].v[j] : j \in DOMAIN coll[i].t[k].v} : i \in DOMAIN coll}
RefusedWasTaken == refused \subseteq NamesOf(coll)
=============================================================================
