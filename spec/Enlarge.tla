------------------------------- MODULE Enlarge ------------------------------
(* Growing dimension by dimension: in every dimension that is too small a slab is put before and one after, filled with the
   next unused parameters. Original entries are negative (-position), parameters positive (number). *)
EXTENDS EnlargeOps
CONSTANTS Shapes
VARIABLES s, t, dim, cur, next
evars == <<s, t, dim, cur, next>>
Orig(sh) == [s |-> sh, v |-> [i \in 1..Numel(sh) |-> -i]]
EInit == s \in Shapes /\ t \in Shapes /\ Fits(s, t) /\ dim = 0 /\ cur = Orig(s) /\ next = 1
Slab(sh, d, n, from) == LET w == WithDim(sh, d, n) IN [s |-> w, v |-> [i \in 1..Numel(w) |-> from + i - 1]]
Grow == /\ dim < Len(s) /\ dim' = dim + 1 /\ UNCHANGED <<s, t>>
        /\ LET diff == t[dim + 1] - cur.s[dim + 1]  b == diff \div 2  e == diff - b
               before == Slab(cur.s, dim, b, next)
               after == Slab(cur.s, dim, e, next + Numel(before.s))
           IN IF diff = 0 THEN UNCHANGED <<cur, next>>
              ELSE /\ cur' = LET x == IF b = 0 THEN cur ELSE Cat(before, cur, dim) IN Cat(x, after, dim)
                   /\ next' = next + Numel(before.s) + Numel(after.s)
ESpec == EInit /\ [][Grow]_evars
Final == dim = Len(s)
RightSize == Final => cur.s = t
Central == Final => \A i \in 0..(Numel(t) - 1) : LET p == Embedded(i, s, t) IN IF p > 0 THEN cur.v[i + 1] = -p ELSE cur.v[i + 1] > 0
EveryParameterOnce == Final => /\ next = NewEntries(s, t) + 1
                               /\ \A k \in 1..(next - 1) : Cardinality({i \in DOMAIN cur.v : cur.v[i] = k}) = 1
=============================================================================
