-------------------------------- MODULE Hooks -------------------------------
(* Registry of hooks of an integrand. A registration is a (handle, hook) pair; an evaluation calls the hooks of all live
   registrations, in order of registration, with the custom data set last. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS HookSet, DataSet, MaxOps
VARIABLES live, next, data, calls, ops, dead
hvars == <<live, next, data, calls, ops, dead>>
HInit == live = << >> /\ next = 1 /\ data = 0 /\ calls = << >> /\ ops = 0 /\ dead = {}
Step == ops < MaxOps /\ ops' = ops + 1
Register(h) == Step /\ live' = Append(live, [id |-> next, h |-> h]) /\ next' = next + 1 /\ calls' = << >> /\ UNCHANGED <<data, dead>>
Remove(id) == /\ Step /\ \E i \in DOMAIN live : live[i].id = id
              /\ live' = SelectSeq(live, LAMBDA x : x.id # id) /\ dead' = dead \cup {id} /\ calls' = << >> /\ UNCHANGED <<next, data>>
SetData(d) == Step /\ data' = d /\ calls' = << >> /\ UNCHANGED <<live, next, dead>>
Evaluate == Step /\ calls' = [i \in DOMAIN live |-> [id |-> live[i].id, h |-> live[i].h, d |-> data]] /\ UNCHANGED <<live, next, data, dead>>
HNext == Evaluate \/ (\E h \in HookSet : Register(h)) \/ (\E d \in DataSet : SetData(d)) \/ (\E id \in 1..MaxOps : Remove(id))
HSpec == HInit /\ [][HNext]_hvars
InOrder == \A i, j \in DOMAIN calls : i < j => calls[i].id < calls[j].id
RemovedNeverCalled == \A i \in DOMAIN calls : calls[i].id \notin dead
NoneForgotten == [](\A id \in 1..MaxOps : calls # << >> /\ id < next /\ id \notin dead => \E i \in DOMAIN calls : calls[i].id = id)
OnceEach == \A i, j \in DOMAIN calls : calls[i].id = calls[j].id => i = j
LatestData == \A i \in DOMAIN calls : calls[i].d = data
=============================================================================
