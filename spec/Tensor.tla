------------------------------- MODULE Tensor -------------------------------
(* Dense tensors: a shape (sequence of naturals) and the entries in row-major order. Dimensions and positions are
   counted from 0, as users of the library count them. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Numel(s) == ProdFrom(s, 1)

\* multi-index (sequence, 0-based entries) of the flat position i (0-based) in shape s
Unravel(i, s) == [d \in 1..Len(s) |-> (i \div ProdFrom(s, d + 1)) % s[d]]
RECURSIVE RavelFrom(_, _, _)
RavelFrom(idx, s, d) == IF d > Len(s) THEN 0 ELSE idx[d] * ProdFrom(s, d + 1) + RavelFrom(idx, s, d + 1)
Ravel(idx, s) == RavelFrom(idx, s, 1)

WellFormed(t) == Len(t.v) = Numel(t.s)
At(t, idx) == t.v[Ravel(idx, t.s) + 1]
\* tensor of shape s whose entry at idx is F(idx)
Build(s, F(_)) == [s |-> s, v |-> [i \in 1..Numel(s) |-> F(Unravel(i - 1, s))]]
Zeros(s) == [s |-> s, v |-> [i \in 1..Numel(s) |-> 0]]
WithDim(s, d, n) == [s EXCEPT ![d + 1] = n]

\* the dimensions of a and b agree everywhere but in dimension d
CatOk(sa, sb, d) == /\ Len(sa) = Len(sb) /\ d + 1 <= Len(sa)
                    /\ \A i \in 1..Len(sa) : i # d + 1 => sa[i] = sb[i]
Cat(a, b, d) == Build(WithDim(a.s, d, a.s[d + 1] + b.s[d + 1]),
                      LAMBDA idx : IF idx[d + 1] < a.s[d + 1] THEN At(a, idx)
                                   ELSE At(b, [idx EXCEPT ![d + 1] = @ - a.s[d + 1]]))
RECURSIVE CatAll(_, _)
CatAll(ts, d) == IF Len(ts) = 1 THEN ts[1] ELSE Cat(CatAll(SubSeq(ts, 1, Len(ts) - 1), d), ts[Len(ts)], d)
\* entries lo, lo+step, ... (n of them) of dimension d
Slice(t, d, lo, n, step) == Build(WithDim(t.s, d, n), LAMBDA idx : At(t, [idx EXCEPT ![d + 1] = lo + @ * step]))
SwapDims(t, d, e) == Build([t.s EXCEPT ![d + 1] = t.s[e + 1], ![e + 1] = t.s[d + 1]],
                           LAMBDA idx : At(t, [idx EXCEPT ![d + 1] = idx[e + 1], ![e + 1] = idx[d + 1]]))
=============================================================================
