------------------------------ MODULE Striding ------------------------------
(* Striding of one tensor, one dimension after the other, as a machine: each step strides the next listed dimension.
   In a strided dimension of length n with stride s the kept positions are r, r+s, ..., n-s with r = n mod s: every s-th
   element, floor(n/s) of them. *)
EXTENDS StrideOps

CONSTANTS Sizes, Strides, MaxRank

VARIABLES shape, dims, strides, done, out
svars == <<shape, dims, strides, done, out>>
Iota(s) == [s |-> s, v |-> [i \in 1..Numel(s) |-> i]]
SInit == /\ \E r \in 3..MaxRank : shape \in [1..r -> Sizes]
         /\ dims \in {<<2>>} \cup (IF MaxRank > 3 /\ Len(shape) > 3 THEN {<<3>>, <<2, 3>>, <<3, 2>>} ELSE {})
         /\ strides \in [1..Len(dims) -> Strides]
         /\ done = 0 /\ out = Iota(shape)
Step == /\ done < Len(dims)
        /\ out' = StrideDim(out, dims[done + 1], strides[done + 1])
        /\ done' = done + 1 /\ UNCHANGED <<shape, dims, strides>>
SNext == Step
SSpec == SInit /\ [][SNext]_svars

\* design properties
SizeRule == done = Len(dims) => \A d \in 0..(Len(shape) - 1) :
   out.s[d + 1] = (IF \E i \in DOMAIN dims : dims[i] = d THEN shape[d + 1] \div strides[CHOOSE i \in DOMAIN dims : dims[i] = d] ELSE shape[d + 1])
OrderFree == done = Len(dims) /\ Len(dims) = 2 =>
   out = StrideDim(StrideDim(Iota(shape), dims[2], strides[2]), dims[1], strides[1])
\* an element is kept iff in every strided dimension its distance to the last position is a multiple of the stride,
\* counted from the end (so the last complete group is always kept)
KeptRule == done = Len(dims) /\ Numel(out.s) > 0 => \A p \in 1..Len(out.v) :
   LET idx == Unravel(out.v[p] - 1, shape) IN
     \A i \in DOMAIN dims : (idx[dims[i] + 1] - (shape[dims[i] + 1] % strides[i])) % strides[i] = 0
WellFormedOut == WellFormed(out)
=============================================================================
