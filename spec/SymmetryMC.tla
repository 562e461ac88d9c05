----------------------------- MODULE SymmetryMC -----------------------------
EXTENDS Symmetry, Json, IOUtils, SequencesExt
Deep == IOEnv.TIER = "thorough"
Lin == [kind |-> "lin"]
Pic == [kind |-> "conv", h |-> 1, w |-> 2, k |-> 3, pad |-> 1]
VecModels == {"Simple", "Debug", "SecondOrder", "UpDown", "Universal", "Periodic", "Dampened", "Symmetrized", "General"}
Big(m) == Len(Keys(m)) = 3
ConfigSet == {[model |-> m, nl |-> f, N |-> d[1], F |-> d[2], g |-> Lin] : m \in VecModels, f \in {"identity", "relu"}, d \in {<<2, 1>>, <<1, 2>>}}
             \cup {[model |-> m, nl |-> f, N |-> 1, F |-> 1, g |-> Pic] : m \in {"Conv", "UpDownConv"}, f \in {"identity", "relu"}}
Rws(cc) == IF cc.g.kind = "lin" THEN cc.N ELSE cc.N * cc.g.h * cc.g.w
Mats(cc) == [1..Rws(cc) -> [1..cc.F -> {-1, 2}]]
Fixed(cc) == [r \in 1..Rws(cc) |-> [j \in 1..cc.F |-> IF r + j = 2 THEN 2 ELSE -1]]
\* three states: two of them start alike; first costate fixed unless the exploration is thorough
StartSet(cc) ==
  LET K == SeqSet(Keys(cc.model))
      Q == [K -> Mats(cc)]
      Half(d) == Big(cc.model) => d["q3"] = d["q2"]
  IN {[q |-> q, p |-> p, x |-> q] : q \in {d \in Q : Half(d)}, p \in {d \in Q : Half(d) /\ (Deep \/ d["q1"] = Fixed(cc))}}
Id(n) == [i \in 1..n |-> i]
Cl(n, s) == [i \in 1..n |-> <<i, s>>]
Sy(cc, rows, cols, num, mult) == [rows |-> rows, datarows |-> IF mult = 1 THEN rows ELSE Id(Rws(cc)), cols |-> cols, num |-> num, mult |-> mult, wf |-> 1]
Same(cc) == [k \in SeqSet(Keys(cc.model)) |-> Cl(cc.F, 1)]
SymSet(cc) ==
  LET R == Rws(cc)
      K == SeqSet(Keys(cc.model))
      back == [i \in 1..R |-> R + 1 - i]
      swap == [i \in 1..cc.F |-> <<cc.F + 1 - i, 1>>]
      turn == [i \in 1..cc.F |-> <<cc.F + 1 - i, IF i = 1 THEN -1 ELSE 1>>]
      two == [k \in K |-> IF k = "q1" THEN swap ELSE Cl(cc.F, 1)]
      signs == [k \in K |-> IF k = "q2" THEN Cl(cc.F, -1) ELSE turn]
  IN {Sy(cc, back, Same(cc), 1, 1), Sy(cc, Id(R), two, 1, 1)}
     \cup (IF cc.g.kind = "lin" THEN {Sy(cc, Id(R) \o back, Same(cc), 1, 2)} ELSE {Sy(cc, Id(R) \o [i \in 1..R |-> i], Same(cc), 1, 2)})
     \cup (IF Damped(cc.model) THEN {} ELSE {Sy(cc, Id(R), Same(cc), n, 1) : n \in {-1, 2, 3}} \cup {[Sy(cc, Id(R), Same(cc), n, 1) EXCEPT !.wf = 2] : n \in {1, 3}})
     \cup (IF Odd(cc.nl) THEN {Sy(cc, Id(R), signs, 1, 1)} ELSE {})
Laws == {"particles", "features", "signs", "repeat", "scale", "weights", "reverse", "shift", "mirror", "energy"}
CaseSet == {[model |-> m, law |-> w, nl |-> f] : m \in DOMAIN Models \ {"Transport"}, w \in Laws, f \in {"tanh", "sigmoid", "softmax", "identity", "relu"}}
Allowed(k) == /\ k.law \in {"scale", "weights", "reverse", "energy"} => ~Damped(k.model)
              /\ k.law = "signs" => Odd(k.nl) /\ k.model # "ConvBatch"
              /\ k.law = "mirror" => k.model \in {"Conv", "UpDownConv", "ConvBatch"}
              /\ k.law \in {"energy", "reverse"} => k.nl # "relu"
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({k \in CaseSet : Allowed(k)}))
=============================================================================
