------------------------------- MODULE MaybeVal -------------------------------
(* C13: Maybe variables; 0 stands for nothing, other numbers are values.       *)
EXTENDS Integers, FiniteSets
CONSTANTS Vars
VARIABLES mv
Init0 == mv = [v \in Vars |-> 0]
Put(v, x) == x # 0 /\ mv' = [mv EXCEPT ![v] = x]
Clear(v) == mv' = [mv EXCEPT ![v] = 0]
Copy(v, w) == mv' = [mv EXCEPT ![v] = mv[w]]
Move(v, w) == \/ v # w /\ mv' = [mv EXCEPT ![v] = mv[w], ![w] = 0]
              \/ v = w /\ (UNCHANGED mv \/ Clear(v))
Swap(v, w) == mv' = [mv EXCEPT ![v] = mv[w], ![w] = mv[v]]
\* writing through the reference that access gives
Write(v, x) == mv[v] # 0 /\ Put(v, x)
\* constructing the new value threw: the variable keeps the old one or holds nothing, no other is touched
Failed(v) == UNCHANGED mv \/ Clear(v)
Valid == {v \in Vars : mv[v] # 0}
=============================================================================
