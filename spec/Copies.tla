-------------------------------- MODULE Copies ------------------------------
(* Copying, saving and reloading models. A model refers to a cell that holds its parameters and has an integration time of its
   own; copying and loading a file allocate a new cell, loading a state dictionary overwrites the contents of the target's cell.
   A file keeps parameters and time as they were when it was written. hist is the abstract view used for the real code: what
   happened to the parameters of each model, whatever cell they live in. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Models, MaxOps
VARIABLES cell, time, heap, hist, file, ops
cvars == <<cell, time, heap, hist, file, ops>>
CInit == /\ cell = [m \in Models |-> m] /\ time = [m \in Models |-> 1] /\ heap = [c \in Models |-> <<c>>]
         /\ hist = [m \in Models |-> <<m>>] /\ file = << >> /\ ops = 0
Fresh == 1 + Cardinality(DOMAIN heap)
Train(m) == /\ heap' = [heap EXCEPT ![cell[m]] = Append(@, 100 + ops)] /\ hist' = [hist EXCEPT ![m] = Append(@, 100 + ops)]
            /\ UNCHANGED <<cell, time, file>>
\* a training step that is determined by the model and its time
Step(m) == /\ heap' = [heap EXCEPT ![cell[m]] = Append(@, time[m])] /\ hist' = [hist EXCEPT ![m] = Append(@, time[m])]
           /\ UNCHANGED <<cell, time, file>>
SetTime(m) == time' = [time EXCEPT ![m] = 3 - @] /\ UNCHANGED <<cell, heap, hist, file>>
Put(m, val, h, t) == /\ heap' = [c \in DOMAIN heap \cup {Fresh} |-> IF c = Fresh THEN val ELSE heap[c]]
                     /\ cell' = [cell EXCEPT ![m] = Fresh] /\ hist' = [hist EXCEPT ![m] = h] /\ time' = [time EXCEPT ![m] = t]
Copy(a, b) == Put(b, heap[cell[a]], hist[a], time[a]) /\ UNCHANGED file
Save(a) == file' = <<heap[cell[a]], hist[a], time[a]>> /\ UNCHANGED <<cell, time, heap, hist>>
Load(b) == file # << >> /\ Put(b, file[1], file[2], file[3]) /\ UNCHANGED file
Restore(a, b) == /\ heap' = [heap EXCEPT ![cell[b]] = heap[cell[a]]] /\ hist' = [hist EXCEPT ![b] = hist[a]] /\ UNCHANGED <<cell, time, file>>
CNext == /\ ops < MaxOps /\ ops' = ops + 1
         /\ \/ \E m \in Models : Train(m) \/ Step(m) \/ SetTime(m) \/ Save(m) \/ Load(m)
            \/ \E a \in Models, b \in Models : Copy(a, b) \/ Restore(a, b)
CSpec == CInit /\ [][CNext]_cvars
Independent == \A a \in Models, b \in Models : a # b => cell[a] # cell[b]
Faithful == \A m \in Models : heap[cell[m]] = hist[m]
=============================================================================
