------------------------------- MODULE TextOps ------------------------------
(* Text as sequences of character codes: escaping for LaTeX, joining of configuration items, argument lists. *)
EXTENDS Integers, Sequences
Special == {38, 37, 36, 35, 95, 123, 125, 126, 94, 92, 60, 62}   \* & % $ # _ { } ~ ^ \ < >
\* what stands for one character: the character itself unless it is special
EscChar(c) == CASE c = 38 -> <<92, 38>>
             [] c = 37 -> <<92, 37>>
             [] c = 36 -> <<92, 36>>
             [] c = 35 -> <<92, 35>>
             [] c = 95 -> <<92, 95>>
             [] c = 123 -> <<92, 123>>
             [] c = 125 -> <<92, 125>>
             [] c = 126 -> <<92, 116, 101, 120, 116, 97, 115, 99, 105, 105, 116, 105, 108, 100, 101, 123, 125>>
             [] c = 94 -> <<92, 94, 123, 125>>
             [] c = 92 -> <<92, 116, 101, 120, 116, 98, 97, 99, 107, 115, 108, 97, 115, 104, 123, 125>>
             [] c = 60 -> <<92, 116, 101, 120, 116, 108, 101, 115, 115, 123, 125>>
             [] c = 62 -> <<92, 116, 101, 120, 116, 103, 114, 101, 97, 116, 101, 114, 123, 125>>
             [] OTHER -> <<c>>
RECURSIVE Escape(_)
Escape(s) == IF s = << >> THEN << >> ELSE EscChar(Head(s)) \o Escape(Tail(s))
IsPrefix_(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]
\* reading escaped text back: at each position the longest piece that stands for a character; 0 where nothing fits
Pieces(s, C) == {c \in C : IsPrefix_(EscChar(c), s)}
RECURSIVE Unescape(_, _)
Unescape(s, C) == IF s = << >> THEN << >>
                  ELSE LET P == Pieces(s, C) IN
                       IF P = {} THEN <<0>>
                       ELSE LET c == CHOOSE c \in P : \A d \in P : Len(EscChar(d)) <= Len(EscChar(c)) IN <<c>> \o Unescape(SubSeq(s, Len(EscChar(c)) + 1, Len(s)), C)
(* configuration strings: items joined by an escaped semicolon *)
Semi == 59
BSlash == 92
Sep == <<BSlash, Semi>>
RECURSIVE EscSemi(_)
EscSemi(s) == IF s = << >> THEN << >> ELSE (IF Head(s) = Semi THEN Sep ELSE <<Head(s)>>) \o EscSemi(Tail(s))
RECURSIVE Join(_, _)
Join(items, sep) == IF items = << >> THEN << >> ELSE IF Len(items) = 1 THEN items[1] ELSE items[1] \o sep \o Join(Tail(items), sep)
KV(kvs) == Join([i \in DOMAIN kvs |-> kvs[i].k \o <<61>> \o kvs[i].v], Sep)
\* adding an item (none: nothing) to a string
Nothing == <<-1>>
Add(cs, item) == IF item = Nothing THEN cs ELSE IF cs \in {Nothing, << >>} THEN EscSemi(item) ELSE cs \o Sep \o EscSemi(item)
RECURSIVE AddAll(_, _)
AddAll(cs, items) == IF items = << >> THEN cs ELSE AddAll(Add(cs, Head(items)), Tail(items))
\* splitting at the separators gives the items back when they hold no backslash
RECURSIVE SplitAt(_, _, _)
SplitAt(s, cur, acc) == IF s = << >> THEN Append(acc, cur)
                        ELSE IF IsPrefix_(Sep, s) THEN SplitAt(SubSeq(s, 3, Len(s)), << >>, Append(acc, cur)) ELSE SplitAt(Tail(s), Append(cur, Head(s)), acc)
Split(s) == SplitAt(s, << >>, << >>)
\* every key as an option, followed by its value if it has one
RECURSIVE ArgList(_)
ArgList(kvs) == IF kvs = << >> THEN << >> ELSE <<<<45, 45>> \o Head(kvs).k>> \o (IF Head(kvs).bare THEN << >> ELSE <<Head(kvs).v>>) \o ArgList(Tail(kvs))
\* lines shown of a command's output: those that do not start with #
RECURSIVE Lines(_, _)
Lines(s, cur) == IF s = << >> THEN <<cur>> ELSE IF Head(s) = 10 THEN <<cur>> \o Lines(Tail(s), << >>) ELSE Lines(Tail(s), Append(cur, Head(s)))
Shown(s) == SelectSeq(Lines(s, << >>), LAMBDA x : x = << >> \/ x[1] # 35)
=============================================================================
