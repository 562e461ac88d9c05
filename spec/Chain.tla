-------------------------------- MODULE Chain -------------------------------
(* A chain of blocks. What is carried from block to block is one named bundle of channels (tags) for states and for data.
   A block with own particles merges its own channels with the carried ones in name order, its new data channels are zero;
   a pure pass-through block hands on. A name already carried is refused. Time adds up. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Sizes, MaxBlocks
VARIABLES name, states, data, time, made, refused
cvars == <<name, states, data, time, made, refused>>
Zero == 0
Tags(from, n) == [i \in 1..n |-> from + i]
CInit == /\ name \in Names /\ \E n \in Sizes : states = Tags(0, n) /\ data = Tags(100, n) /\ made = n
         /\ time = 1 /\ refused = FALSE
Before(a, b) == a < b
Own(nm, n) == IF nm = name THEN refused' = TRUE /\ UNCHANGED <<name, states, data, time, made>>
              ELSE /\ LET mine == Tags(made, n)  zeros == [i \in 1..n |-> Zero] IN
                      IF Before(nm, name) THEN states' = mine \o states /\ data' = zeros \o data
                      ELSE states' = states \o mine /\ data' = data \o zeros
                   /\ name' = nm /\ time' = time + 1 /\ made' = made + n /\ UNCHANGED refused
Pass(nm) == IF nm = name THEN refused' = TRUE /\ UNCHANGED <<name, states, data, time, made>>
            ELSE name' = nm /\ time' = time + 1 /\ UNCHANGED <<states, data, made, refused>>
CNext == time < MaxBlocks /\ ~refused /\ \E nm \in Names : (\E n \in Sizes : Own(nm, n)) \/ Pass(nm)
CSpec == CInit /\ [][CNext]_cvars
ChannelsAddUp == Len(states) = made /\ Len(data) = made
NothingLostOrDoubled == Cardinality({states[i] : i \in DOMAIN states}) = made
DataKept == \A i, j \in DOMAIN data : data[i] # Zero /\ data[j] # Zero /\ i < j => data[i] < data[j]
NewDataIsZero == \A i \in DOMAIN data : data[i] = Zero \/ states[i] = data[i] - 100
=============================================================================
