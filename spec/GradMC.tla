-------------------------------- MODULE GradMC ------------------------------
EXTENDS Grad, Json, IOUtils, SequencesExt
Deep == IOEnv.TIER = "thorough"
AllModes == {"particles", "frozen", "direct"}
St(q, p, x, A, b) == [q |-> q, p |-> p, x |-> x, A |-> A, b |-> b]
V == {-1, 1, 2}
One == {St(<<a>>, <<c>>, x, A, b) : a \in V, c \in V, x \in {-2, 1}, A \in {-1, 2}, b \in {1, 3}}
Two == {St(<<a, b>>, <<c, d>>, x, A, 1) : a \in {-1, 2}, b \in {1, -1}, c \in {1, -1}, d \in {1, 2}, x \in {1, -2}, A \in {-2, 1}}
StartSet == One \cup Two
LossSet == {[q |-> 1, p |-> 0, x |-> 0, e |-> 0], [q |-> 0, p |-> 1, x |-> 0, e |-> 0], [q |-> 0, p |-> 0, x |-> 1, e |-> 0],
            [q |-> 0, p |-> 0, x |-> 0, e |-> 1], [q |-> 2, p |-> -1, x |-> 3, e |-> 1], [q |-> 0, p |-> 0, x |-> 3, e |-> -1]}
LengthSet == {1, 2}
Zero(mm, s) == IF mm = "direct" THEN s.q[1] = -1 /\ s.p[1] = 1 ELSE (s.A = -1 /\ s.b = 1) \/ (Len(s.q) = 2 /\ s.A = 1)
CaseSet == {c \in {[mode |-> mm, s |-> s, T |-> t, w |-> lw] : mm \in AllModes, s \in StartSet, t \in LengthSet, lw \in LossSet}
              : Zero(c.mode, c.s) /\ (c.mode = "direct" => c.w.q = 0 /\ c.w.p = 0)}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(CaseSet))
=============================================================================
