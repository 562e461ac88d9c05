-------------------------------- MODULE Loader -------------------------------
(* Three loaders over two splits of a data set: "train" (shuffled, training split), "eval" (training split in its order) and "test"
   (test split in its order). Iterators are opened any number of times and advanced in any interleaving; each hands out batches of
   exactly the loader's size from what it has not handed out yet, and ends when fewer than a batch are left. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NTrain, NTest, B, BTest, MaxIters
VARIABLES iters
Loaders == {"train", "eval", "test"}
Size(k) == IF k = "test" THEN NTest ELSE NTrain
Batch(k) == IF k = "train" THEN B ELSE BTest
Shuffled(k) == k = "train"
All(k) == 0..(Size(k) - 1)
Range(s) == {s[i] : i \in DOMAIN s}
LInit == iters = << >>
Open(k) == /\ Len(iters) < MaxIters
           /\ iters' = Append(iters, [loader |-> k, out |-> << >>, over |-> FALSE])
\* what the next batch may be, given what has been handed out
Next(k, out, ids) == IF Shuffled(k) THEN Range(ids) \subseteq All(k) \ Range(out) /\ Cardinality(Range(ids)) = Len(ids)
                     ELSE ids = [i \in 1..Len(ids) |-> Len(out) + i - 1]
CanGo(k, out) == Size(k) - Len(out) >= Batch(k)
Advance(i) == LET it == iters[i] IN
  /\ ~it.over
  /\ IF CanGo(it.loader, it.out)
     THEN \E ids \in [1..Batch(it.loader) -> All(it.loader)] :
             Next(it.loader, it.out, ids) /\ iters' = [iters EXCEPT ![i].out = @ \o ids]
     ELSE iters' = [iters EXCEPT ![i].over = TRUE]
LNext == (\E k \in Loaders : Open(k)) \/ (\E i \in DOMAIN iters : Advance(i))
LSpec == LInit /\ [][LNext]_iters
NoneTwice == \A i \in DOMAIN iters : Cardinality(Range(iters[i].out)) = Len(iters[i].out)
OwnSplit == \A i \in DOMAIN iters : Range(iters[i].out) \subseteq All(iters[i].loader)
FullBatches == \A i \in DOMAIN iters : Len(iters[i].out) % Batch(iters[i].loader) = 0
\* at the end fewer than a batch have not been handed out
AllButTheRest == \A i \in DOMAIN iters : iters[i].over => Size(iters[i].loader) - Len(iters[i].out) \in 0..(Batch(iters[i].loader) - 1)
FixedOrder == \A i \in DOMAIN iters : ~Shuffled(iters[i].loader) => \A j \in DOMAIN iters[i].out : iters[i].out[j] = j - 1
\* evaluation hands out the same every time
SameEveryTime == \A i, j \in DOMAIN iters : iters[i].loader = iters[j].loader /\ ~Shuffled(iters[i].loader) /\ iters[i].over /\ iters[j].over
                    => iters[i].out = iters[j].out
=============================================================================
