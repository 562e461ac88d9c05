------------------------------ MODULE LayerOps ------------------------------
(* The standard layers on integer tensors. *)
EXTENDS Tensor

RECURSIVE SumTo(_, _)
SumTo(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumTo(F, n - 1)
SumSeq(s) == SumTo(s, Len(s))

\* linear: last dimension i -> o
LinearOut(x, w, b) ==
  Build([x.s EXCEPT ![Len(x.s)] = w.s[1]],
        LAMBDA idx : LET o == idx[Len(idx)] IN
          SumSeq([i \in 1..w.s[2] |-> At(w, <<o, i - 1>>) * At(x, [idx EXCEPT ![Len(idx)] = i - 1])]) + (IF b = << >> THEN 0 ELSE b[1].v[o + 1]))
\* damped linear: minus the damping factor times the second input (factor in units of 1/Z, everything else times Z)
DampedOut(x, w, b, damp, z, Z) ==
  LET y == LinearOut(x, w, b) IN [s |-> y.s, v |-> [i \in DOMAIN y.v |-> Z * y.v[i] - damp * z.v[i]]]

\* where a position outside the image is read (-1: zero)
PadIndex(i, n, mode) ==
  IF i >= 0 /\ i < n THEN i
  ELSE CASE mode = "zeros" -> -1
         [] mode = "replicate" -> IF i < 0 THEN 0 ELSE n - 1
         [] mode = "circular" -> i % n
         [] mode = "reflect" -> IF i < 0 THEN -i ELSE 2 * (n - 1) - i
OutLen(n, k, st, pd, dl) == (n + 2 * pd - dl * (k - 1) - 1) \div st + 1
\* c: [st, pd, dl: pairs, groups, mode]
ConvOut(x, w, b, c) ==
  LET kh == w.s[3]  kw == w.s[4]  cpg == w.s[2]  opg == w.s[1] \div c.groups
      Read(bb, ch, i, j) == LET ii == PadIndex(i, x.s[3], c.mode)  jj == PadIndex(j, x.s[4], c.mode) IN
                            IF ii < 0 \/ jj < 0 THEN 0 ELSE At(x, <<bb, ch, ii, jj>>)
      One(bb, o, i, j) ==
        SumSeq([k \in 1..(cpg * kh * kw) |->
          LET ch == (k - 1) \div (kh * kw)  ki == ((k - 1) \div kw) % kh  kj == (k - 1) % kw IN
          At(w, <<o, ch, ki, kj>>) * Read(bb, (o \div opg) * cpg + ch, i * c.st[1] + ki * c.dl[1] - c.pd[1], j * c.st[2] + kj * c.dl[2] - c.pd[2])])
        + (IF b = << >> THEN 0 ELSE b[1].v[o + 1])
  IN Build(<<x.s[1], w.s[1], OutLen(x.s[3], kh, c.st[1], c.pd[1], c.dl[1]), OutLen(x.s[4], kw, c.st[2], c.pd[2], c.dl[2])>>,
           LAMBDA idx : One(idx[1], idx[2], idx[3], idx[4]))

\* group normalisation of a tensor <<B, C, rest>>: for one entry the centred value times the group size, and the group's
\* sum of squares of those (so that y - b = w * centred / sqrt(squares / n + eps * n * n))
GroupOf(x, g, idx) == LET cpg == x.s[2] \div g IN {i \in 1..Len(x.v) : LET k == Unravel(i - 1, x.s) IN k[1] = idx[1] /\ k[2] \div cpg = idx[2] \div cpg}
RECURSIVE SumSet(_, _)
SumSet(v, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN v[i] + SumSet(v, S \ {i})
=============================================================================
