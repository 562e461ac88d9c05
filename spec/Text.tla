-------------------------------- MODULE Text --------------------------------
(* A text is read character by character and its escaped form written; a configuration string grows item by item. *)
EXTENDS TextOps, FiniteSets
CONSTANTS Alphabet, MaxText, ItemChars, MaxItems
VARIABLES inp, outp, items, conf
tvars == <<inp, outp, items, conf>>
TInit == inp = << >> /\ outp = << >> /\ items = << >> /\ conf = << >>
Read(c) == Len(inp) < MaxText /\ items = << >> /\ inp' = Append(inp, c) /\ outp' = outp \o EscChar(c) /\ UNCHANGED <<items, conf>>
ItemSet == UNION {[1..n -> ItemChars] : n \in 1..2}
Extend(it) == Len(items) < MaxItems /\ inp = << >> /\ items' = Append(items, it) /\ conf' = Add(conf, it) /\ UNCHANGED <<inp, outp>>
TNext == (\E c \in Alphabet : Read(c)) \/ (\E it \in ItemSet : Extend(it))
TSpec == TInit /\ [][TNext]_tvars
IsEscape == outp = Escape(inp)
\* nothing is lost or confused: the text can be read back
Reversible == Unescape(outp, Alphabet) = inp
\* ordinary characters are left alone
OrdinaryKept == (\A i \in DOMAIN inp : inp[i] \notin Special) => outp = inp
NoBareSpecial == \A i \in DOMAIN outp : outp[i] \in {38, 37, 36, 35, 95} => i > 1 /\ outp[i - 1] = BSlash
\* configuration: the items, at their semicolons, in order
ConfHoldsItems == items # << >> => Split(conf) = Join([i \in DOMAIN items |-> Split(EscSemi(items[i]))], << >>)
ConfIsJoin == conf = Join([i \in DOMAIN items |-> EscSemi(items[i])], Sep)
=============================================================================
