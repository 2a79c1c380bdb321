-------------------------------- MODULE ListSeq -------------------------------
(* C10: InlineList as what it stands for - one sequence of nodes per list, a
   node in at most one of them.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Lists, Nodes
VARIABLES lst,      \* lst[L]: the nodes of L in order
          up,       \* lists that exist
          orphan    \* nodes whose list died without releasing them (release builds)
lvars == <<lst, up, orphan>>

Set(s) == {s[i] : i \in DOMAIN s}
Member(n) == \E L \in Lists : n \in Set(lst[L])
ListOf(n) == CHOOSE L \in Lists : n \in Set(lst[L])
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

LInit == lst = [L \in Lists |-> <<>>] /\ up = Lists /\ orphan = {}

Append_(L, n) == /\ L \in up /\ ~Member(n) /\ n \notin orphan
                 /\ lst' = [lst EXCEPT ![L] = Append(@, n)]
                 /\ UNCHANGED <<up, orphan>>
Remove(L, n) == /\ n \in Set(lst[L])
                /\ lst' = [lst EXCEPT ![L] = Without(@, {n})]
                /\ UNCHANGED <<up, orphan>>
RemoveSelf(n) == Member(n) /\ Remove(ListOf(n), n)
\* erasing yields the position after the erased node, 0 standing for the end
After(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0
Erase(L, n, back, next) ==
    /\ n \in Set(lst[L])
    /\ LET s == IF back THEN Reverse(lst[L]) ELSE lst[L]
       IN next = After(s, IndexOf(s, n))
    /\ Remove(L, n)
\* one pass that erases the nodes in S on its way
Sweep(L, S, back, seen) ==
    /\ L \in up
    /\ seen = (IF back THEN Reverse(lst[L]) ELSE lst[L])
    /\ lst' = [lst EXCEPT ![L] = Without(@, S)]
    /\ UNCHANGED <<up, orphan>>
KillList(L, clears) ==
    /\ L \in up
    /\ up' = up \ {L}
    /\ lst' = [lst EXCEPT ![L] = <<>>]
    /\ orphan' = IF clears THEN orphan ELSE orphan \cup Set(lst[L])
NewList(L) == L \notin up /\ up' = up \cup {L} /\ UNCHANGED <<lst, orphan>>
NewNode(n) == ~Member(n) /\ orphan' = orphan \ {n} /\ UNCHANGED <<lst, up>>

\* n nodes in the order of their numbers, of which every k-th has left: runs of consecutive numbers
Runs(n, k) == SelectSeq([j \in 1..(n \div k) + 1 |-> <<(j - 1) * k + 1, IF j * k > n THEN n - (j - 1) * k ELSE k - 1>>], LAMBDA x : x[2] > 0)
Down(rs) == [j \in DOMAIN rs |-> LET x == rs[Len(rs) + 1 - j] IN <<x[1] + x[2] - 1, x[2]>>]

OneListOnly == /\ \A L1, L2 \in Lists : L1 # L2 => Set(lst[L1]) \cap Set(lst[L2]) = {}
               /\ \A L \in Lists : Len(lst[L]) = Cardinality(Set(lst[L]))
               /\ \A n \in orphan : ~Member(n)
=============================================================================
