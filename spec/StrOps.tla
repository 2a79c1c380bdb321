-------------------------------- MODULE StrOps --------------------------------
(* C18-C20: what the string functions compute, on sequences of byte values.   *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Least(I) == CHOOSE i \in I : \A j \in I : i <= j
Cut(s, m) == SubSeq(s, 1, Min(Len(s), m - 1))
\* the string at the start of a buffer
Upto0(b) == LET Z == {i \in DOMAIN b : b[i] = 0} IN IF Z = {} THEN b ELSE SubSeq(b, 1, Least(Z) - 1)
\* ---- bounded copies: <<string left in the destination or -1 when untouched, value returned>>
Copy(src, m) == IF m = 0 THEN [touch |-> FALSE, s |-> <<>>, ret |-> 0]
                ELSE [touch |-> TRUE, s |-> Cut(src, m), ret |-> Len(Cut(src, m))]
CopyN(src, n, m) == Copy(SubSeq(Upto0(src), 1, Min(n, Len(Upto0(src)))), m)
Cat(dst, src, m) == IF Len(dst) + 1 >= m THEN [touch |-> FALSE, s |-> dst, ret |-> Len(dst)]
                    ELSE [touch |-> TRUE, s |-> Cut(dst \o src, m), ret |-> Len(Cut(dst \o src, m))]
\* before, after: the destination's bytes; only the string and its terminator are determined
Stored(R, before, after) ==
    IF R.touch THEN Len(R.s) + 1 <= Len(after) /\ SubSeq(after, 1, Len(R.s) + 1) = Append(R.s, 0)
    ELSE after = before

\* ---- splitting and joining
At(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, p, i, acc) ==
    LET K == {k \in i..Len(s) : At(s, p, k)} IN
    IF K = {} THEN Append(acc, SubSeq(s, i, Len(s)))
    ELSE SplitFrom(s, p, Least(K) + Len(p), Append(acc, SubSeq(s, i, Least(K) - 1)))
Split(s, p) == IF s = <<>> THEN <<>> ELSE SplitFrom(s, p, 1, <<>>)
RECURSIVE JoinAll(_, _)
JoinAll(ps, sep) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o sep \o JoinAll(Tail(ps), sep)
\* ---- predicates and case
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Up(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
Down(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
\* ---- formatting, for the conversions that are modelled
Rep(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Pad(t, w, left) == IF left THEN t \o Rep(32, w - Len(t)) ELSE Rep(32, w - Len(t)) \o t
\* a negative width means left; a negative precision means none
FmtS(v, w, p, minus) == LET t == IF p >= 0 THEN SubSeq(v, 1, Min(p, Len(v))) ELSE v
                        IN Pad(t, IF w < 0 THEN -w ELSE w, minus \/ w < 0)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
FmtD(v, w, minus, zero, plus) ==
    LET sgn == IF v < 0 THEN <<45>> ELSE IF plus THEN <<43>> ELSE <<>>
        d == Dec(IF v < 0 THEN -v ELSE v)
        ww == IF w < 0 THEN -w ELSE w
        left == minus \/ w < 0
    IN IF zero /\ ~left THEN sgn \o Rep(48, ww - Len(d) - Len(sgn)) \o d ELSE Pad(sgn \o d, ww, left)
Slashes(s) == [i \in DOMAIN s |-> IF s[i] = 92 THEN 47 ELSE s[i]]
=============================================================================
