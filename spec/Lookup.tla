------------------------------- MODULE Lookup -------------------------------
(* Finding the parameter set for a time with a cache of the position used last: searches start from the cached position.
   Whatever was asked before, the answer is the set of the piece containing the time. *)
EXTENDS LookupOps
CONSTANTS Ks, G, MaxAsk
VARIABLES K, pos, asked, answer
lvars == <<K, pos, asked, answer>>
LInit == K \in Ks /\ pos = 1 /\ asked = << >> /\ answer = 0
StartOf(i) == (i - 1) * G
RECURSIVE Left(_, _)
Left(u, i) == IF u < StartOf(i) THEN Left(u, i - 1) ELSE i
RECURSIVE Right(_, _)
Right(u, i) == IF i < K /\ u >= StartOf(i + 1) THEN Right(u, i + 1) ELSE i
Ask(u) == /\ Len(asked) < MaxAsk /\ asked' = Append(asked, u) /\ UNCHANGED K
          /\ pos' = IF u < 0 THEN 1 ELSE IF u >= K * G THEN K ELSE IF u < StartOf(pos) THEN Left(u, pos) ELSE Right(u, pos)
          /\ answer' = pos'
LNext == \E u \in -1..(K * G + 1) : Ask(u)
LSpec == LInit /\ [][LNext]_lvars
HistoryFree == asked # << >> => answer = Piece(asked[Len(asked)], K, G)
EveryPieceReachable == \A i \in 1..K : \E u \in 0..(K * G - 1) : Piece(u, K, G) = i
=============================================================================
