------------------------------ MODULE LayersMC ------------------------------
EXTENDS Layers, LayerOps, TLC, Json, IOUtils, SequencesExt
\* -- the layer functions on small tensors ---------------------------------
T(s, f) == [s |-> s, v |-> [i \in 1..Numel(s) |-> f[((i - 1) % Len(f)) + 1]]]
X1 == T(<<2, 2, 3, 4>>, <<3, -1, 2, 0, 5, -4, 1>>)
Modes == {"zeros", "replicate", "circular", "reflect"}
Cfg(p, m) == [st |-> <<1, 1>>, pd |-> <<p, p>>, dl |-> <<1, 1>>, groups |-> 1, mode |-> m]
\* 3x3 kernel that picks the centre: the identity in every padding mode
Pick == Build(<<2, 2, 3, 3>>, LAMBDA i : IF i[1] = i[2] /\ i[3] = 1 /\ i[4] = 1 THEN 1 ELSE 0)
ASSUME \A m \in Modes : ConvOut(X1, Pick, << >>, Cfg(1, m)) = X1
\* kernel that picks the left neighbour: padding shows
Left == Build(<<2, 2, 3, 3>>, LAMBDA i : IF i[1] = i[2] /\ i[3] = 1 /\ i[4] = 0 THEN 1 ELSE 0)
ASSUME \A m \in Modes : LET y == ConvOut(X1, Left, << >>, Cfg(1, m)) IN
         /\ \A b \in 0..1, c \in 0..1, i \in 0..2, j \in 1..3 : At(y, <<b, c, i, j>>) = At(X1, <<b, c, i, j - 1>>)
         /\ \A b \in 0..1, c \in 0..1, i \in 0..2 : At(y, <<b, c, i, 0>>) =
              CASE m = "zeros" -> 0 [] m = "replicate" -> At(X1, <<b, c, i, 0>>) [] m = "circular" -> At(X1, <<b, c, i, 3>>) [] m = "reflect" -> At(X1, <<b, c, i, 1>>)
\* a 1x1 convolution is a linear layer over the channels
W11 == T(<<3, 2, 1, 1>>, <<2, -1, 3, 4, 0, 1>>)
W1 == T(<<3, 2>>, <<2, -1, 3, 4, 0, 1>>)
B1 == <<T(<<3>>, <<7, -2, 1>>)>>
Chan(x) == Build(<<x.s[1], x.s[3], x.s[4], x.s[2]>>, LAMBDA i : At(x, <<i[1], i[4], i[2], i[3]>>))
ASSUME Chan(ConvOut(X1, W11, B1, Cfg(0, "zeros"))) = LinearOut(Chan(X1), W1, B1)
\* groups: block-diagonal
W2 == T(<<2, 1, 2, 2>>, <<1, -2, 3, 5, 2, 2, -1, 4>>)
Wide == Build(<<2, 2, 2, 2>>, LAMBDA i : IF i[1] = i[2] THEN At(W2, <<i[1], 0, i[3], i[4]>>) ELSE 0)
ASSUME ConvOut(X1, W2, << >>, [Cfg(1, "zeros") EXCEPT !.groups = 2]) = ConvOut(X1, Wide, << >>, Cfg(1, "zeros"))
\* stride keeps every second output
ASSUME LET full == ConvOut(X1, Wide, << >>, Cfg(1, "zeros"))  half == ConvOut(X1, Wide, << >>, [Cfg(1, "zeros") EXCEPT !.st = <<2, 2>>]) IN
       \A b \in 0..1, c \in 0..1, i \in 0..(half.s[3] - 1), j \in 0..(half.s[4] - 1) : At(half, <<b, c, i, j>>) = At(full, <<b, c, 2 * i, 2 * j>>)
\* dilation: a 2x2 kernel with holes is a 3x3 kernel
Holes == Build(<<2, 2, 3, 3>>, LAMBDA i : IF i[3] % 2 = 0 /\ i[4] % 2 = 0 THEN At(Wide, <<i[1], i[2], i[3] \div 2, i[4] \div 2>>) ELSE 0)
ASSUME ConvOut(X1, Wide, << >>, [Cfg(1, "zeros") EXCEPT !.dl = <<2, 2>>]) = ConvOut(X1, Holes, << >>, Cfg(1, "zeros"))

\* -- replayed cases --------------------------------------------------------
\* histories of a layer: w replace weight, b replace bias, p replace by a trainable parameter, g weight of one entry, u weight of an unknown
\* entry, c conversion, a apply
Ops == {"w", "b", "p", "g", "u", "c", "a"}
Histories == {<<x, "a">> : x \in Ops} \cup {<<x, y, "a">> : x, y \in Ops} \cup {<<x, "a", y, "a">> : x, y \in Ops \ {"a"}}
Convs == {[kh |-> kh, kw |-> kw, st |-> s, pd |-> p, dl |-> d, groups |-> g, mode |-> m] :
          kh \in {1, 3}, kw \in {1, 2, 3}, s \in {1, 2}, p \in {0, 1, 2}, d \in {1, 2}, g \in {1, 2}, m \in Modes}
Kinds == {[kind |-> k] : k \in {"linear", "damped", "group"}}
CaseSet == {[kind |-> "conv", c |-> c, h |-> h, bias |-> b] : c \in Convs, h \in {<<"a">>, <<"w", "a">>, <<"a", "w", "a">>, <<"a", "b", "c", "a">>, <<"p", "a", "w", "g", "a">>}, b \in BOOLEAN}
           \cup {[kind |-> k, h |-> h, bias |-> b] : k \in {"linear", "damped", "conv1", "group"}, h \in Histories, b \in BOOLEAN}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
