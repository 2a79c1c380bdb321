------------------------------- MODULE HashFunMC -------------------------------
(* Both character hash functions on words of W bits and bytes of B bits: a
   content enters in chunks; the hasher's state is what entering it byte by
   byte gives, every step is one-to-one, and so every content may be seen.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise
CONSTANTS W, B, MaxLen
O == INSTANCE HashFun
M == 2^W
Wd == 0..(M - 1)
Byte == 0..(2^B - 1)
Signed(c) == IF c >= 2^(B - 1) THEN M - 2^B + c ELSE c       \* char is signed
Shl(h, k) == (h * 2^k) % M
Shr(h, k) == h \div 2^k
\* shifts in the proportions of the real ones
Add(h, c) == LET a == (h + Signed(c)) % M
                 b == (a + Shl(a, 2)) % M
             IN b ^^ Shr(b, 1)
Finish(h) == LET a == (h + Shl(h, 1)) % M
                 b == a ^^ Shr(a, 2)
             IN (b + Shl(b, 3)) % M
Fast(h, c) == (Signed(c) + Shl(h, 1) + Shl(h, 3) - h) % M
RECURSIVE Fold(_, _, _)
Fold(Op(_, _), h, c) == IF c = <<>> THEN h ELSE Fold(Op, Op(h, Head(c)), Tail(c))
Contents == UNION {[1..n -> Byte] : n \in 0..MaxLen}
VARIABLES c, h, f
Init == c = <<>> /\ h = 0 /\ f = 0
Enter(s) == Len(c) + Len(s) <= MaxLen /\ c' = c \o s /\ h' = Fold(Add, h, s) /\ f' = Fold(Fast, f, s)
Next == \E s \in Contents : Enter(s)
Spec == Init /\ [][Next]_<<c, h, f>>
Whole == h = Fold(Add, 0, c) /\ f = Fold(Fast, 0, c)
OneToOne == /\ \A x \in Byte : Cardinality({Add(w, x) : w \in Wd}) = M /\ Cardinality({Fast(w, x) : w \in Wd}) = M
            /\ Cardinality({Add(h, x) : x \in Byte}) = 2^B /\ Cardinality({Fast(f, x) : x \in Byte}) = 2^B
            /\ Cardinality({Finish(w) : w \in Wd}) = M
Apart == \A i \in DOMAIN c : \A x \in Byte \ {c[i]} :
           LET d == [c EXCEPT ![i] = x] IN /\ Finish(Fold(Add, 0, d)) # Finish(h)
                                           /\ Fold(Fast, 0, d) # f
\* how contents come in chunks, for replay
PrintEdge == PrintT("EDGE " \o ToJson([n |-> Len(c), k |-> Len(c') - Len(c)]))
=============================================================================
