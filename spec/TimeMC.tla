--------------------------------- MODULE TimeMC ---------------------------------
(* The limb arithmetic against integers, for seconds of Second parts and clocks
   of every small resolution; and the conversion itself, done the way that needs
   no number outside the range of the result.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Base, Limbs, Secs, Second, Units
O == INSTANCE TimeArith
RECURSIVE Val(_)
Val(a) == IF Len(a) = 1 THEN a[1] ELSE Val(SubSeq(a, 1, Len(a) - 1)) * Base + a[Len(a)]
Big(k) == O!Small(Limbs, k)
VARIABLES sec, part, unit, q, pc
vars == <<sec, part, unit, q, pc>>
Total == sec * Second + part
Init == /\ sec \in (0 - Secs)..Secs /\ part \in 0..(Second - 1)
        /\ unit \in 1..Units /\ q = 0 /\ pc = "count"
\* approach the truncated value from zero, a unit a step
Beyond(k) == IF Total >= 0 THEN k * unit > Total ELSE k * unit < Total
Step == /\ pc = "count"
        /\ LET n == IF Total >= 0 THEN q + 1 ELSE q - 1 IN
           IF Beyond(n) THEN pc' = "done" /\ q' = q ELSE q' = n /\ pc' = pc
        /\ UNCHANGED <<sec, part, unit>>
Spec == Init /\ [][Step]_vars
Arith == /\ Val(Big(Total)) = Total
         /\ O!Value(Big(sec), Big(part), <<Second>>) = Big(Total)
         /\ O!Lt(Big(sec), Big(part)) = (sec < part)
         /\ O!Minus(Big(sec), Big(part)) = Big(sec - part)
Exactly == O!Truncates(Big(Total), <<unit>>, Big(q)) <=> (pc = "done" \/ Beyond(IF Total >= 0 THEN q + 1 ELSE q - 1))
\* the steps of the conversion stay between zero and the result
SameSide == LET s == IF sec < 0 /\ part > 0 THEN sec + 1 ELSE sec
                p == IF sec < 0 /\ part > 0 THEN part - Second ELSE part
            IN /\ s * Second + p = Total
               /\ (Total >= 0 => s >= 0 /\ p >= 0) /\ (Total <= 0 => s <= 0 /\ p <= 0)
=============================================================================
