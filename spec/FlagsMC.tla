-------------------------------- MODULE FlagsMC --------------------------------
(* Three variables of W bits under compound assignments; the formulas of
   am-flags.h, computed bit by bit, are the set operations.                   *)
EXTENDS FlagSets, TLC, Json
CONSTANTS W, Vars
VARIABLES x, act
Words == SUBSET (0..(W - 1))
Init == x = [v \in Vars |-> {}] /\ act = [o |-> "init"]
Ops == {"or", "plus", "and", "xor", "minus", "set"}
Next == \/ \E o \in Ops, v, w \in Vars : x' = [x EXCEPT ![v] = Apply(o, x[v], x[w])] /\ act' = [o |-> o, v |-> v, w |-> w]
        \/ \E v \in Vars, b \in 0..(W - 1) : x' = [x EXCEPT ![v] = {b}] /\ act' = [o |-> "bit", v |-> v, w |-> b]
        \/ \E v \in Vars : x' = [x EXCEPT ![v] = Not(W, x[v])] /\ act' = [o |-> "not", v |-> v, w |-> v]
Spec == Init /\ [][Next]_x
View == x
\* bits() & (bits() ^ other.bits())
Minus == \A v, w \in Vars : x[v] \cap Xor(x[v], x[w]) = Apply("minus", x[v], x[w])
Laws == \A v, w \in Vars : LET S == x[v]  T == x[w] IN
        /\ Apply("minus", S, T) = Apply("and", S, Not(W, T))
        /\ Apply("or", Apply("minus", S, T), Apply("and", S, T)) = S
        /\ Apply("xor", Apply("xor", S, T), T) = S
        /\ Not(W, Apply("or", S, T)) = Apply("and", Not(W, S), Not(W, T))
        /\ Not(W, Not(W, S)) = S
PrintEdge == PrintT("EDGE " \o ToJson([s |-> ToString(View), a |-> act', t |-> ToString(View')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> ToString(View)]))
=============================================================================
