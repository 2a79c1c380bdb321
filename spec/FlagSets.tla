-------------------------------- MODULE FlagSets --------------------------------
(* C25: flag variables as sets of bits of a word of W bits.                    *)
EXTENDS Integers, Sequences, FiniteSets
Xor(S, T) == (S \ T) \union (T \ S)
Apply(o, S, T) == CASE o = "or" -> S \union T [] o = "plus" -> S \union T [] o = "and" -> S \cap T
                    [] o = "xor" -> Xor(S, T) [] o = "minus" -> S \ T [] o = "set" -> T
Not(W, S) == (0..(W - 1)) \ S
\* bytes, least significant first
SetOf(w) == {i \in 0..(8 * Len(w) - 1) : (w[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2 = 1}
=============================================================================
