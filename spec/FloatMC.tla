--------------------------------- MODULE FloatMC ---------------------------------
(* All pairs of a small format: long division, one bit a step, against what the
   property says about the result, in exact integers (units of the smallest
   number).                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS EB, MB
F == [top |-> 2^EB - 1, one |-> <<0, 2^MB>>, mb |-> MB]
O == INSTANCE FloatFmt WITH Base <- 134217728
Numbers == [s : {0, 1}, e : 0..F.top, m : {<<0, i>> : i \in 0..(2^MB - 1)}]
VARIABLES x, y, r, k     \* k: bits of the numerator already used; -1 when there is nothing to divide
Regular(a) == O!Class(F, a) = "finite"
Units(a) == O!Sig(F, a)[2] * 2^O!Exp(F, a)
Len2 == MB + 1 + O!Exp(F, x) - O!Exp(F, y)
Divides == Regular(x) /\ Regular(y) /\ O!Exp(F, x) >= O!Exp(F, y)
Bit(i) == IF i <= MB + 1 THEN O!BitAt(O!Sig(F, x), MB + 1 - i) ELSE 0
Init == x \in Numbers /\ y \in Numbers /\ r = O!Zero /\ k = (IF Divides THEN 0 ELSE -1)
Next == /\ k >= 0 /\ k < Len2
        /\ k' = k + 1
        /\ r' = O!Step(r, Bit(k + 1), O!Sig(F, y))
        /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y, r, k>>
\* the remainder of what has entered so far
RECURSIVE Pre(_)
Pre(n) == IF n = 0 THEN 0 ELSE 2 * Pre(n - 1) + Bit(n)
Divided == k >= 0 => /\ O!Lt(r, O!Sig(F, y))
                     /\ (Pre(k) - r[2]) % O!Sig(F, y)[2] = 0
Finished == k = -1 \/ k = Len2
Same(a, b) == a.s = b.s /\ a.e = b.e /\ a.m = b.m
\* what the property says, about the number Modulo yields
Contract ==
    Finished =>
    LET z == O!Modulo(F, x, y) IN
    /\ O!ModuloNaN(F, x, y) <=> (O!IsNaN(F, x) \/ O!IsNaN(F, y) \/ O!IsInf(F, x) \/ O!IsZero(F, y))
    /\ ~O!ModuloNaN(F, x, y) =>
         /\ z \in Numbers
         /\ O!Class(F, z) \in {"finite", "zero"}
         /\ z.s = x.s
         /\ O!IsInf(F, y) => Same(z, x)
         /\ O!IsZero(F, x) => Same(z, x)
         /\ Regular(x) /\ Regular(y) => /\ Units(z) < Units(y)
                                        /\ (Units(x) - Units(z)) % Units(y) = 0
         \* and no other number would do
         /\ Regular(y) => \A w \in Numbers : (w.s = x.s /\ w.e # F.top /\ Units(w) < Units(y) /\ (Units(x) - Units(w)) % Units(y) = 0) => Same(w, z)
Classes == /\ O!IsNaN(F, x) => ~O!IsInf(F, x)
           /\ Cardinality({c \in {"nan", "inf", "zero", "finite"} : O!Class(F, x) = c}) = 1
           /\ Cardinality({a \in Numbers : O!IsInf(F, a)}) = 2
PrintCase == (k > 0) \/ PrintT("EDGE " \o ToJson([x |-> <<x.s, x.e, x.m[2]>>, y |-> <<y.s, y.e, y.m[2]>>]))
=============================================================================
