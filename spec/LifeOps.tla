------------------------------- MODULE LifeOps ------------------------------
(* What a block has to register. A configuration c: own = sizes of its states (<< >> for a pure pass-through block),
   pt = for every pass-through block the sizes as they come (cur) and after enlargement (tgt), zero = states kept at zero,
   free = particle-free, sets/setsize = its parameter sets, layers = sizes of the model's own layer parameters. *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumTo(F, n - 1)
Sum(F) == SumTo(F, Len(F))
Sides(c) == IF c.zero THEN 1 ELSE 2
OwnScalars(c) == IF c.free THEN 0 ELSE Sides(c) * Sum(c.own)
EnlargeScalars(c) == IF c.own = << >> THEN 0 ELSE Sides(c) * Sum([b \in DOMAIN c.pt |-> Sum(c.pt[b].tgt) - Sum(c.pt[b].cur)])
FreeScalars(c) == IF c.free THEN c.sets * c.setsize ELSE 0
Scalars(c) == OwnScalars(c) + EnlargeScalars(c) + FreeScalars(c) + Sum(c.layers)
RECURSIVE CountTo(_, _, _)
CountTo(a, b, n) == IF n = 0 THEN 0 ELSE CountTo(a, b, n - 1) + (IF b[n] > a[n] THEN 1 ELSE 0)
EnlargeTensors(c) == IF c.own = << >> THEN 0 ELSE Sides(c) * Sum([b \in DOMAIN c.pt |-> CountTo(c.pt[b].cur, c.pt[b].tgt, Len(c.pt[b].cur))])
=============================================================================
