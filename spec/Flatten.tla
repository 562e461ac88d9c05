------------------------------ MODULE Flatten -------------------------------
(* The vector the ODE solver works on. State, costate and data are dictionaries (block -> key -> tensor); they are laid
   out as disjoint contiguous segments of one vector and recovered from it (also when the solver put a leading time
   dimension in front). A dictionary is modelled as the set of its entries [b, k, s, v].

   The machine has the three calls a user of the layer makes: Pack (flatten), Evolve (the solver writes into the vector,
   entry by entry, or stacks T copies of it) and Unpack. *)
EXTENDS Tensor

CONSTANTS Blocks, Keys, Shapes, MaxEntries, TimeLens

Groups == {"state", "costate", "data"}
Entry == [g : Groups, b : Blocks, k : Keys, s : Shapes]

VARIABLES phase, plan, vec, T, unpacked
fvars == <<phase, plan, vec, T, unpacked>>

Ids(es) == {<<e.g, e.b, e.k>> : e \in es}
Functional(es) == Cardinality(Ids(es)) = Cardinality(es)

\* A layout: a sequence of the entries. Which one is used is the implementation's business (any order of disjoint segments).
RECURSIVE Off(_, _)
Off(lay, i) == IF i = 1 THEN 0 ELSE Off(lay, i - 1) + Numel(lay[i - 1].s)
Size(lay) == IF Len(lay) = 0 THEN 0 ELSE Off(lay, Len(lay)) + Numel(lay[Len(lay)].s)
\* value of entry i at flat position j, as the user stored it: unique per position so that no mix-up goes unnoticed
Val(i, j) == 100 * i + j
Packed(lay) == [p \in 1..Size(lay) |->
                  LET i == CHOOSE i \in 1..Len(lay) : Off(lay, i) < p /\ p <= Off(lay, i) + Numel(lay[i].s)
                  IN Val(i, p - Off(lay, i))]
Segment(v, lay, i) == [s |-> lay[i].s, v |-> [j \in 1..Numel(lay[i].s) |-> v[Off(lay, i) + j]]]
\* leading time dimension: rows are vectors
SegmentT(rows, lay, i) == [s |-> <<Len(rows)>> \o lay[i].s,
                           v |-> [j \in 1..(Len(rows) * Numel(lay[i].s)) |->
                                    LET n == Numel(lay[i].s) IN rows[((j - 1) \div n) + 1][Off(lay, i) + ((j - 1) % n) + 1]]]

Layouts == UNION {{lay \in [1..n -> Entry] : \A i, j \in 1..n : i # j => <<lay[i].g, lay[i].b, lay[i].k>> # <<lay[j].g, lay[j].b, lay[j].k>>} : n \in 1..MaxEntries}

FInit == phase = "start" /\ plan = <<>> /\ vec = <<>> /\ T = 0 /\ unpacked = <<>>
Pack == /\ phase = "start"
        /\ \E lay \in Layouts : plan' = lay /\ vec' = Packed(lay)
        /\ phase' = "packed" /\ UNCHANGED <<T, unpacked>>
Stack == /\ phase = "packed"
         /\ \E n \in TimeLens : T' = n
         /\ phase' = "stacked" /\ UNCHANGED <<plan, vec, unpacked>>
Row(r) == [p \in 1..Len(vec) |-> vec[p] + 10000 * (r - 1)]
Unpack == /\ phase \in {"packed", "stacked"}
          /\ unpacked' = [i \in 1..Len(plan) |-> IF phase = "packed" THEN Segment(vec, plan, i)
                                                 ELSE SegmentT([r \in 1..T |-> Row(r)], plan, i)]
          /\ phase' = "done" /\ UNCHANGED <<plan, vec, T>>
FNext == Pack \/ Stack \/ Unpack
FSpec == FInit /\ [][FNext]_fvars

\* --- properties of the design
\* what was put in comes out, entry by entry, under its own block and key
RoundTrip == phase = "done" /\ T = 0 =>
  \A i \in 1..Len(plan) : unpacked[i] = [s |-> plan[i].s, v |-> [j \in 1..Numel(plan[i].s) |-> Val(i, j)]]
\* with a time dimension, slice r of every entry is the entry of row r
TimeSlices == phase = "done" /\ T > 0 =>
  \A i \in 1..Len(plan) : /\ unpacked[i].s = <<T>> \o plan[i].s
                          /\ \A r \in 1..T : \A j \in 1..Numel(plan[i].s) :
                               unpacked[i].v[(r - 1) * Numel(plan[i].s) + j] = Val(i, j) + 10000 * (r - 1)
\* segments are disjoint and cover the vector
Covers == phase # "start" => Len(vec) = Size(plan) /\ Cardinality({vec[p] : p \in 1..Len(vec)}) = Len(vec)
=============================================================================
