-------------------------------- MODULE SplitMC --------------------------------
(* The search loop of Split: cursor and match; with Join as the inverse.      *)
EXTENDS StrOps, TLC, Json
CONSTANTS MaxLen, MaxSep, Alphabet
VARIABLES s, sep, cur, match, out, pc
vars == <<s, sep, cur, match, out, pc>>
Init == /\ s \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ sep \in UNION {[1..n -> Alphabet] : n \in 1..MaxSep}
        /\ cur = 1 /\ match = 0 /\ out = <<>> /\ pc = "loop"
Find == LET K == {k \in cur..Len(s) : At(s, sep, k)} IN IF K = {} THEN 0 ELSE Least(K)
Loop == /\ pc = "loop" /\ UNCHANGED <<s, sep>>
        /\ IF cur > Len(s) THEN pc' = "tail" /\ UNCHANGED <<cur, match, out>>
           ELSE /\ match' = Find
                /\ IF Find = 0 THEN pc' = "tail" /\ UNCHANGED <<cur, out>>
                   ELSE out' = Append(out, SubSeq(s, cur, Find - 1)) /\ cur' = Find + Len(sep) /\ UNCHANGED pc
TailPiece == /\ pc = "tail" /\ UNCHANGED <<s, sep, cur, match>> /\ pc' = "done"
             /\ out' = IF cur <= Len(s) \/ match > 0 THEN Append(out, SubSeq(s, cur, Len(s))) ELSE out
Next == Loop \/ TailPiece
Spec == Init /\ [][Next]_vars
Inverse == pc = "done" => out = Split(s, sep) /\ JoinAll(out, sep) = s
\* the pieces but the last do not contain the separator
Clean == \A k \in 1..(Len(out) - 1) : \A i \in DOMAIN out[k] : ~At(out[k], sep, i)
PrintCase == pc = "done" => PrintT("EDGE " \o ToJson([s |-> s, sep |-> sep]))
=============================================================================
