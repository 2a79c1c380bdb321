------------------------------ MODULE HashProbeMC -----------------------------
(* Hash assignments for HashProbe. Keys 0..5 come and go, 10.. are fillers.   *)
EXTENDS HashProbe
\* all keys collide around the end of the table; the fillers sit in the middle
HashA == [k \in AllKeys |-> CASE k = 0 -> 14 [] k = 1 -> 14 [] k = 2 -> 15 [] k = 3 -> 31 [] k = 4 -> 30 [] k = 5 -> 0
                              [] OTHER -> k - 8]
\* one chain: every key has the same hash, the last slot's
HashB == [k \in AllKeys |-> IF k < 10 THEN 15 ELSE 15]
\* fillers first, keys interleaved
HashC == [k \in AllKeys |-> IF k < 10 THEN 5 + 2 * k ELSE k - 10]
=============================================================================
