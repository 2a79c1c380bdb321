-------------------------------- MODULE WordsMC --------------------------------
(* Words of four limbs of LB bits, all pairs: the limb arithmetic is integer
   arithmetic, and the detectors and formulas of am-arithmetic.h and am-bits.h
   are exact at this width.  Modular arithmetic, as the machine computes it.  *)
EXTENDS Words, TLC, Json
CONSTANTS LB, Limbs
Base == 2 ^ LB
W == LB * Limbs
Mod == 2 ^ W
VARIABLES a, b
Init == a \in [1..Limbs -> 0..(Base - 1)] /\ b \in [1..Limbs -> 0..(Base - 1)]
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
RECURSIVE Val(_)
Val(w) == IF w = <<>> THEN 0 ELSE w[1] + Base * Val(Tail(w))
x == Val(a)
y == Val(b)
Max2(p, q) == IF p > q THEN p ELSE q
Arith == /\ Val(AddW(Base, a, b)) = x + y /\ Val(MulW(Base, a, b)) = x * y
         /\ AddFits(Base, a, b) = (x + y < Mod) /\ MulFits(Base, a, b) = (x * y < Mod)
\* TryUintAdd, IsUintAddSafe, TryUint64Multiply, IsUintMultiplySafe
Detect == /\ ((x + y) % Mod < Max2(x, y)) = (x + y >= Mod)
          /\ (x <= Mod - 1 - y) = (x + y < Mod)
          /\ LET r == (x * y) % Mod IN (x # 0 /\ r \div x # y) = (x * y >= Mod)
          /\ (x <= 1 \/ y <= 1 \/ x <= (Mod - 1) \div y) = (x * y < Mod)
SetVal(S) == LET F[i \in 0..W] == IF i = 0 THEN 0 ELSE F[i - 1] + (IF i - 1 \in S THEN 2 ^ (i - 1) ELSE 0) IN F[W]
A == BitsOf(LB, a)
Single == /\ SetVal(A) = x
          /\ x > 0 => 2 ^ Highest(A) <= x /\ x < 2 ^ (Highest(A) + 1) /\ x % (2 ^ Lowest(A)) = 0 /\ (x \div (2 ^ Lowest(A))) % 2 = 1
          /\ PowerOfTwo(A) = (\E k \in 0..(W - 1) : x = 2 ^ k)
          \* value & (value - 1)
          /\ (x # 0 /\ SetVal(A \cap {i \in 0..(W - 1) : ((x - 1) \div (2 ^ i)) % 2 = 1}) = 0) = PowerOfTwo(A)
Aligns == \A k \in 0..(W - 1) : LET q == 2 ^ k IN
          /\ Val(Unalign(LB, a, k)) = x - (x % q)
          /\ BitsOf(LB, Unalign(LB, a, k)) = {i \in A : i >= k}
          /\ AlignFits(LB, a, k) = (x + ((q - (x % q)) % q) < Mod)
          /\ AlignFits(LB, a, k) => Val(AlignW(LB, a, k)) = x + ((q - (x % q)) % q)
\* single words: once, with b = 0
OnceSingle == b = Zero(Limbs) => Single /\ Aligns
PrintCase == PrintT("EDGE " \o ToJson([a |-> a, b |-> b]))
=============================================================================
