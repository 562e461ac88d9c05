------------------------------ MODULE EnlargeOps ----------------------------
(* Central embedding of a tensor of shape s in a tensor of shape t (same length, s <= t in every dimension). *)
EXTENDS Tensor
Fits(s, t) == Len(s) = Len(t) /\ \A d \in DOMAIN s : s[d] <= t[d]
Offset(s, t, d) == (t[d] - s[d]) \div 2
Inside(idx, s, t) == \A d \in DOMAIN s : idx[d] >= Offset(s, t, d) /\ idx[d] < Offset(s, t, d) + s[d]
Source(idx, s, t) == [d \in DOMAIN s |-> idx[d] - Offset(s, t, d)]
\* original entry (1-based flat position in s) at flat position i (0-based) of the enlarged tensor, 0 for a new entry
Embedded(i, s, t) == LET idx == Unravel(i, t) IN IF Inside(idx, s, t) THEN Ravel(Source(idx, s, t), s) + 1 ELSE 0
NewEntries(s, t) == Numel(t) - Numel(s)
=============================================================================
