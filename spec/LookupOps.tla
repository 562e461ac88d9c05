------------------------------ MODULE LookupOps -----------------------------
EXTENDS Integers, Sequences
\* K equal pieces of G units each, from time 0 on; set (1..K) in force at time u
Piece(u, K, G) == IF u < 0 THEN 1 ELSE IF u >= K * G THEN K ELSE (u \div G) + 1
=============================================================================
