--------------------------------- MODULE Words ---------------------------------
(* C21, C22: machine words as sequences of limbs, least significant first, each
   of base Base; and as sets of bit positions.                                *)
EXTENDS Integers, Sequences, FiniteSets
Zero(n) == [i \in 1..n |-> 0]
\* sum of two words of n limbs: n limbs and the carry out
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(Base, a, b, i, c) ==
    IF i > Len(a) THEN <<c>>
    ELSE LET s == a[i] + b[i] + c IN <<s % Base>> \o AddFrom(Base, a, b, i + 1, s \div Base)
AddW(Base, a, b) == AddFrom(Base, a, b, 1, 0)
\* product of two words of n limbs: 2n limbs
RECURSIVE Column(_, _, _, _)
Column(a, b, k, i) == IF i > Len(a) THEN 0
                      ELSE (IF k - i + 1 \in DOMAIN b THEN a[i] * b[k - i + 1] ELSE 0) + Column(a, b, k, i + 1)
RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(Base, a, b, k, c) ==
    IF k > 2 * Len(a) THEN <<>>
    ELSE LET s == Column(a, b, k, 1) + c IN <<s % Base>> \o MulFrom(Base, a, b, k + 1, s \div Base)
MulW(Base, a, b) == MulFrom(Base, a, b, 1, 0)
Low(w, n) == SubSeq(w, 1, n)
AddFits(Base, a, b) == AddW(Base, a, b)[Len(a) + 1] = 0
MulFits(Base, a, b) == LET p == MulW(Base, a, b) IN \A i \in (Len(a) + 1)..(2 * Len(a)) : p[i] = 0
\* the set of one-bits, for limbs of LB bits
BitsOf(LB, w) == {i \in 0..(LB * Len(w) - 1) : (w[(i \div LB) + 1] \div (2 ^ (i % LB))) % 2 = 1}
Highest(S) == CHOOSE i \in S : \A j \in S : j <= i
Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j
PowerOfTwo(S) == Cardinality(S) = 1
\* the least multiple of 2^k that is at least a, when it fits: clear the low bits, add 2^k unless they were clear
Pow(LB, n, k) == [i \in 1..n |-> IF i - 1 = k \div LB THEN 2 ^ (k % LB) ELSE 0]
LowBits(LB, S, k) == {i \in S : i < k}
Unalign(LB, w, k) == [i \in 1..Len(w) |-> IF LB * i <= k THEN 0 ELSE IF LB * (i - 1) >= k THEN w[i]
                                          ELSE w[i] - (w[i] % (2 ^ (k - LB * (i - 1))))]
AlignSum(LB, w, k) == IF Unalign(LB, w, k) = w THEN w \o <<0>> ELSE AddW(2 ^ LB, Unalign(LB, w, k), Pow(LB, Len(w), k))
AlignFits(LB, w, k) == AlignSum(LB, w, k)[Len(w) + 1] = 0
AlignW(LB, w, k) == Low(AlignSum(LB, w, k), Len(w))
=============================================================================
