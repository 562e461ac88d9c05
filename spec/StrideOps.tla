----------------------------- MODULE StrideOps -----------------------------
(* What striding does to one tensor; used by the design (Striding) and by the trace specification. *)
EXTENDS Tensor

Kept(n, s) == n \div s
First(n, s) == n % s
StrideDim(t, d, s) == Slice(t, d, First(t.s[d + 1], s), Kept(t.s[d + 1], s), s)
RECURSIVE StrideAll(_, _, _, _)
\* dims/strides: sequences; off: extra leading dimensions
StrideAll(t, dims, strides, off) ==
  IF dims = <<>> THEN t ELSE StrideAll(StrideDim(t, Head(dims) + off, Head(strides)), Tail(dims), Tail(strides), off)
\* refused: batch or channel dimension, or a dimension the tensor does not have
Allowed(rank, dims, off) == \A i \in DOMAIN dims : dims[i] + off >= 2 /\ dims[i] + off < rank

=============================================================================
