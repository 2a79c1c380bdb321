-------------------------------- MODULE SeqHelp --------------------------------
(* C24: sequences changed by the vector and deque helpers.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vs
VARIABLES q
Init0 == q = [v \in Vs |-> <<>>]
Set(v, s) == q' = [q EXCEPT ![v] = s]
WithAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))      \* before position i, counted from 0
WithoutAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Last(s) == s[Len(s)]
Push(v, x) == Set(v, Append(q[v], x))
PushFront(v, x) == Set(v, <<x>> \o q[v])
PopBack(v) == q[v] # <<>> /\ Set(v, SubSeq(q[v], 1, Len(q[v]) - 1))
PopFront(v) == q[v] # <<>> /\ Set(v, Tail(q[v]))
Insert(v, i, x) == i \in 0..Len(q[v]) /\ Set(v, WithAt(q[v], i, x))
Remove(v, i) == i \in 0..(Len(q[v]) - 1) /\ Set(v, WithoutAt(q[v], i))
EraseIf(v, Test(_)) == Set(v, SelectSeq(q[v], LAMBDA x : ~Test(x)))
Extend(v, w) == v # w /\ q' = [q EXCEPT ![v] = q[v] \o q[w], ![w] = <<>>]
=============================================================================
