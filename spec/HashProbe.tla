------------------------------- MODULE HashProbe ------------------------------
(* Implementation-shaped design of the hash table: open addressing with linear
   probing, tombstones, and density-driven resizing, as in am-hashtable.h.
   It refines HashDict (property Refines), and its state graph supplies the
   histories which are replayed on the real containers (one per transition).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys,        \* the keys that come and go
          Fill,        \* keys put in at the start, so that the table is nearly full
          Hash,        \* Hash[k]: the low bits of its hash
          MinCap, MaxCap, WithFail

VARIABLES cap, tab, act

Free == -1
Dead == -2
AllKeys == Keys \cup Fill
Slots == 0..(cap - 1)
Live(t) == {i \in DOMAIN t : t[i] >= 0}
Stored(t) == {t[i] : i \in Live(t)}
NDead(t) == Cardinality({i \in DOMAIN t : t[i] = Dead})
NLive(t) == Cardinality(Live(t))
Empty(n) == [i \in 0..(n - 1) |-> Free]

\* the slot a probe for k ends in: its own, or the first free one; -1: never ends
RECURSIVE Probe(_, _, _, _)
Probe(t, n, k, j) ==
    IF j = n THEN -1
    ELSE LET i == (Hash[k] + j) % n
         IN IF t[i] = Free \/ t[i] = k THEN i ELSE Probe(t, n, k, j + 1)

RECURSIVE FirstDead(_, _, _, _)
FirstDead(t, n, k, j) ==
    IF j = n THEN -1
    ELSE LET i == (Hash[k] + j) % n
         IN IF t[i] = Dead THEN i
            ELSE IF t[i] = Free \/ t[i] = k THEN -1
            ELSE FirstDead(t, n, k, j + 1)

Lookup(k) == LET i == Probe(tab, cap, k, 0) IN i >= 0 /\ tab[i] = k

RECURSIVE UniqueSlot(_, _, _, _)
UniqueSlot(t, n, k, j) ==
    LET i == (Hash[k] + j) % n
    IN IF t[i] < 0 THEN i ELSE UniqueSlot(t, n, k, j + 1)

\* relocation in slot order, as changeCapacity does
RECURSIVE Rehash(_, _, _, _)
Rehash(old, i, t, n) ==
    IF i \notin DOMAIN old THEN t
    ELSE IF old[i] < 0 THEN Rehash(old, i + 1, t, n)
    ELSE Rehash(old, i + 1, [t EXCEPT ![UniqueSlot(t, n, old[i], 0)] = old[i]], n)

Used(t) == NLive(t) + NDead(t)
Target(t, n) == IF n > MinCap /\ Used(t) < n \div 4
                THEN (IF n \div 2 < MinCap THEN n ELSE n \div 2)
                ELSE IF Used(t) > (n \div 2) + (n \div 4) THEN n * 2
                ELSE n

RECURSIVE PutAll(_, _, _)
PutAll(t, n, S) == IF S = {} THEN t
                   ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y
                        IN PutAll([t EXCEPT ![UniqueSlot(t, n, k, 0)] = k], n, S \ {k})

Init == /\ cap = MinCap
        /\ tab = PutAll(Empty(MinCap), MinCap, Fill)
        /\ act = [o |-> "init", k |-> 0]

Resize(n) == /\ cap' = n
             /\ tab' = Rehash(tab, 0, Empty(n), n)

Insert(k, mayFail) ==
    /\ ~Lookup(k)
    /\ act' = [o |-> IF mayFail THEN "failput" ELSE "put", k |-> k]
    /\ LET d == FirstDead(tab, cap, k, 0)
       IN IF d >= 0 THEN /\ tab' = [tab EXCEPT ![d] = k]
                         /\ UNCHANGED cap
          ELSE LET n == Target(tab, cap)
               IN /\ n <= MaxCap
                  /\ IF n # cap
                     THEN IF mayFail THEN UNCHANGED <<cap, tab>>   \* refused: nothing changes
                          ELSE LET t == Rehash(tab, 0, Empty(n), n)
                               IN /\ cap' = n
                                  /\ tab' = [t EXCEPT ![UniqueSlot(t, n, k, 0)] = k]
                     ELSE /\ tab' = [tab EXCEPT ![Probe(tab, cap, k, 0)] = k]
                          /\ UNCHANGED cap

Remove(k) ==
    /\ Lookup(k)
    /\ act' = [o |-> "rm", k |-> k]
    /\ tab' = [tab EXCEPT ![Probe(tab, cap, k, 0)] = Dead]
    /\ UNCHANGED cap

DropFill ==             \* an iteration that erases all fillers
    /\ Fill \cap Stored(tab) # {}
    /\ act' = [o |-> "drop", k |-> 0]
    /\ tab' = [i \in DOMAIN tab |-> IF tab[i] \in Fill THEN Dead ELSE tab[i]]
    /\ UNCHANGED cap

Clear ==
    /\ act' = [o |-> "clear", k |-> 0]
    /\ tab' = Empty(cap)
    /\ UNCHANGED cap

CheckDensity ==
    /\ act' = [o |-> "density", k |-> 0]
    /\ Target(tab, cap) <= MaxCap
    /\ IF Target(tab, cap) = cap THEN UNCHANGED <<cap, tab>>
       ELSE Resize(Target(tab, cap))

Next == \/ \E k \in Keys : Insert(k, FALSE) \/ Remove(k)
        \/ WithFail /\ \E k \in Keys : Insert(k, TRUE)
        \/ DropFill \/ Clear \/ CheckDensity

vars == <<cap, tab>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the design has to guarantee
TypeOK == /\ DOMAIN tab = Slots
          /\ \A i \in Slots : tab[i] \in AllKeys \cup {Free, Dead}
SomeFree == \E i \in Slots : tab[i] = Free           \* so that every probe ends
NoDuplicates == Cardinality(Stored(tab)) = NLive(tab)
Reachable == \A k \in AllKeys : k \in Stored(tab) <=> Lookup(k)
ProbesEnd == \A k \in AllKeys : Probe(tab, cap, k, 0) # -1

\* The abstract dictionary of this design, and its refinement of HashDict: the
\* entries are the stored keys (each its own value).
AbsDict == [k \in Stored(tab) |-> k]
Abs == INSTANCE HashDict WITH Containers <- {0}, st <- [c \in {0} |-> "ready"],
                              dict <- [c \in {0} |-> AbsDict], per <- [c \in {0} |-> 1]
\* (Iterate's visits are not part of this design's state; its effect is.)
AbsStep == \/ UNCHANGED AbsDict
           \/ \E k \in Keys : Abs!Put(0, k, k, FALSE, TRUE, FALSE) \/ Abs!RemoveFound(0, k, TRUE)
           \/ Abs!Clear(0)
           \/ AbsDict' = Abs!Without(AbsDict, Fill)
Refines == [][AbsStep]_vars

View == vars
StateJson == [c |-> cap, t |-> [i \in 1..cap |-> tab[i - 1]]]
NextJson == [c |-> cap', t |-> [i \in 1..cap' |-> tab'[i - 1]]]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> StateJson, a |-> act', t |-> NextJson]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> StateJson]))
=============================================================================
