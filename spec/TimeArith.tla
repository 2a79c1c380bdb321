------------------------------- MODULE TimeArith -------------------------------
(* C29. Whole numbers of any size as limbs, most significant first: all but the
   first are in 0..Base-1, the first carries the sign (so that a number has one
   form for each length).  Factors keep products within TLC's integers.        *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Base
RECURSIVE Carry(_, _)
Carry(s, i) == IF i = 1 THEN s
               ELSE Carry([s EXCEPT ![i] = s[i] % Base, ![i - 1] = s[i - 1] + (s[i] \div Base)], i - 1)
Norm(s) == Carry(s, Len(s))
Plus(a, b) == Norm([i \in DOMAIN a |-> a[i] + b[i]])
Minus(a, b) == Norm([i \in DOMAIN a |-> a[i] - b[i]])
Times(a, c) == Norm([i \in DOMAIN a |-> a[i] * c])
TimesAll(a, factors) == FoldLeft(LAMBDA x, c : Times(x, c), a, factors)
Small(n, k) == Norm([i \in 1..n |-> IF i = n THEN k ELSE 0])
Lt(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* q, in units of the product of the factors, is a truncated towards zero
Truncates(a, factors, q) ==
    LET n == Len(a)  z == Small(n, 0)
        d == Minus(a, TimesAll(q, factors))
        u == TimesAll(Small(n, 1), factors)
    IN IF Lt(a, z) THEN ~Lt(z, d) /\ Lt(Minus(z, u), d) ELSE ~Lt(d, z) /\ Lt(d, u)
\* a time given in seconds and a part of a second, in those parts
Value(sec, part, second) == Plus(TimesAll(sec, second), part)
=============================================================================
