--------------------------------- MODULE FmtMC ---------------------------------
(* Formatting in two passes: measure, then print into what was allocated; and
   in one bounded pass with the terminator placed by the caller.  A pass may
   fail.  Len: the length of the complete text.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, MaxM
VARIABLES len, m, fail, pc, room, ret, term, whole
vars == <<len, m, fail, pc, room, ret, term, whole>>
Init == /\ len \in 0..MaxLen /\ m \in 0..MaxM /\ fail \in BOOLEAN /\ pc = "measure"
        /\ room = 0 /\ ret = -1 /\ term = -1 /\ whole = -1
Measure == /\ pc = "measure" /\ UNCHANGED <<len, m, fail, ret, term>>
           /\ IF fail THEN whole' = -2 /\ pc' = "bounded" /\ UNCHANGED room
              ELSE room' = len + 1 /\ pc' = "print" /\ UNCHANGED whole
Emit == /\ pc = "print" /\ whole' = len /\ pc' = "bounded" /\ UNCHANGED <<len, m, fail, room, ret, term>>
Bounded == /\ pc = "bounded" /\ pc' = "done" /\ UNCHANGED <<len, m, fail, room, whole>>
           /\ IF m = 0 THEN ret' = 0 /\ UNCHANGED term
              ELSE IF fail THEN ret' = 0 /\ term' = 0
              ELSE IF len >= m THEN ret' = m - 1 /\ term' = m - 1
              ELSE ret' = len /\ term' = len
Next == Measure  \/ Emit \/ Bounded
Spec == Init /\ [][Next]_vars
Fits == room > 0 => whole <= room - 1
InBuffer == pc = "done" => (m > 0 => term \in 0..(m - 1)) /\ (m = 0 => term = -1) /\ ret = (IF term = -1 THEN 0 ELSE term)
Longest == pc = "done" /\ ~fail /\ m > 0 => ret = IF len < m THEN len ELSE m - 1
PrintCase == pc = "done" => PrintT("EDGE " \o ToJson([len |-> len, m |-> m, fail |-> fail]))
=============================================================================
