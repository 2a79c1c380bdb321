-------------------------------- MODULE ArrVal --------------------------------
(* C14: FixedArray variables: a sequence of values, or failed, and the arena
   (allocator policy) that the array's memory comes from - a set, because
   move assignment may leave either policy with its source.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vars
VARIABLES av        \* var -> [ok, s, ar]
DefaultArena == {0}
Ok(s, ar) == [ok |-> TRUE, s |-> s, ar |-> ar]
Failed(ar) == [ok |-> FALSE, s |-> <<>>, ar |-> ar]
Init0 == av = [v \in Vars |-> Ok(<<>>, DefaultArena)]
Given(refused, s, ar) == IF refused THEN Failed(ar) ELSE Ok(s, ar)
\* a new array in place of v: built from a length, a vector or another array
Construct(v, s, ar, refused) == av' = [av EXCEPT ![v] = Given(refused, s, ar)]
CopyCtor(v, w, refused) == /\ v # w
                           /\ Construct(v, av[w].s, av[w].ar, refused)
MoveCtor(v, w) == v # w /\ av' = [av EXCEPT ![v] = av[w], ![w] = Ok(<<>>, av[w].ar)]
\* copying keeps the target's own arena; nothing happens to an array assigned to itself
Assign(v, w, refused) == IF v = w THEN ~refused /\ UNCHANGED av
                         ELSE Construct(v, av[w].s, av[v].ar, refused)
MoveAssign(v, w) == IF v = w THEN UNCHANGED av \/ av' = [av EXCEPT ![v] = Ok(<<>>, av[v].ar)]
                    ELSE av' = [av EXCEPT ![v] = av[w], ![w] = Ok(<<>>, av[v].ar \cup av[w].ar)]
Write(v, i, x) == i \in DOMAIN av[v].s /\ av' = [av EXCEPT ![v].s[i] = x]
RECURSIVE Total(_, _)
Total(a, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN Len(a[v].s) + Total(a, S \ {v})
HasBlock(a, r) == {v \in Vars : a[v].ar = {r} /\ a[v].s # <<>>}
=============================================================================
