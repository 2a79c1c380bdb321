-------------------------------- MODULE FloatFmt --------------------------------
(* C28: binary floating point. A format F has fields top (the exponent field of
   infinities and NaNs) and one (<<hi, lo>>: the value of the hidden bit), a
   number is a record s (sign bit), e (exponent field), m (fraction).
   Naturals below 2^54 are pairs <<hi, lo>> with 0 <= lo < Base.               *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Base
Zero == <<0, 0>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Add(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + lo \div Base, lo % Base>>
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Base - b[2]>>
Twice(a) == Add(a, a)
\* ---- classes
IsNaN(F, x) == x.e = F.top /\ x.m # Zero
IsInf(F, x) == x.e = F.top /\ x.m = Zero
IsZero(F, x) == x.e = 0 /\ x.m = Zero
Class(F, x) == CASE IsNaN(F, x) -> "nan" [] IsInf(F, x) -> "inf" [] IsZero(F, x) -> "zero" [] OTHER -> "finite"
\* ---- finite numbers: Sig * 2^Exp units, the unit being the smallest number
Sig(F, x) == IF x.e = 0 THEN x.m ELSE Add(F.one, x.m)
Exp(F, x) == IF x.e = 0 THEN 0 ELSE x.e - 1
\* ---- remainder by long division: the numerator's bits enter one by one, most
\* significant first; the remainder stays below the denominator
Step(r, bit, d) == LET t == Add(Twice(r), <<0, bit>>) IN IF Lt(t, d) THEN t ELSE Minus(t, d)
\* bits of a, most significant first (n = number of bits)
BitAt(a, i) == IF i < 27 THEN (a[2] \div 2^i) % 2 ELSE (a[1] \div 2^(i - 27)) % 2
Bits(a, n) == [i \in 1..n |-> BitAt(a, n - i)]
Rem(a, n, shift, d) == FoldLeft(LAMBDA r, b : Step(r, b, d), Zero, Bits(a, n) \o [i \in 1..shift |-> 0])
\* put r * 2^q back into a number (r < 2^(mb+1))
RECURSIVE Normal(_, _, _)
Normal(F, r, q) == IF q = 0 \/ ~Lt(r, F.one) THEN <<r, q>> ELSE Normal(F, Twice(r), q - 1)
Encode(F, s, r, q) == LET n == Normal(F, r, q) IN
    IF Lt(n[1], F.one) THEN [s |-> s, e |-> 0, m |-> n[1]] ELSE [s |-> s, e |-> n[2] + 1, m |-> Minus(n[1], F.one)]
\* ---- FloatModulo: either any NaN or exactly one number
ModuloNaN(F, x, y) == IsNaN(F, x) \/ IsNaN(F, y) \/ IsInf(F, x) \/ IsZero(F, y)
Modulo(F, x, y) ==
    IF IsInf(F, y) \/ IsZero(F, x) THEN x
    ELSE IF Exp(F, x) < Exp(F, y) THEN x      \* then |x| < |y|: y's hidden bit is set
    ELSE LET r == Rem(Sig(F, x), F.mb + 1, Exp(F, x) - Exp(F, y), Sig(F, y)) IN
         IF r = Zero THEN [s |-> x.s, e |-> 0, m |-> Zero] ELSE Encode(F, x.s, r, Exp(F, y))
=============================================================================
