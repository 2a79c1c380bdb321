--------------------------------- MODULE PrioMC -------------------------------
(* The binary heap of am-priority-queue.h over an array of keys, checked to
   refine the bag of keys: the root is always a least key, and a pop removes
   exactly one element.  Its state graph supplies the histories.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, MaxLen
VARIABLES h, out, act
hv == <<h, out>>
Parent(i) == i \div 2
RECURSIVE Up(_, _)
Up(s, i) == IF i = 1 \/ ~(s[i] < s[Parent(i)]) THEN s
            ELSE Up([s EXCEPT ![i] = s[Parent(i)], ![Parent(i)] = s[i]], Parent(i))
Best(s, i) == IF 2 * i + 1 <= Len(s) /\ s[2 * i + 1] < s[2 * i] THEN 2 * i + 1 ELSE 2 * i
RECURSIVE Down(_, _)
Down(s, i) == IF 2 * i > Len(s) THEN s
              ELSE LET b == Best(s, i)
                   IN IF ~(s[b] < s[i]) THEN s ELSE Down([s EXCEPT ![i] = s[b], ![b] = s[i]], b)
Init == h = <<>> /\ out = 0 /\ act = [o |-> "init", k |-> 0]
Add(k) == /\ Len(h) < MaxLen
          /\ h' = Up(Append(h, k), Len(h) + 1)
          /\ out' = 0
          /\ act' = [o |-> "add", k |-> k]
PopTop == /\ h # <<>>
          /\ out' = h[1]
          /\ h' = IF Len(h) = 1 THEN <<>> ELSE Down([[i \in 1..(Len(h) - 1) |-> h[i]] EXCEPT ![1] = h[Len(h)]], 1)
          /\ act' = [o |-> "pop", k |-> 0]
Next == PopTop \/ \E k \in Keys : Add(k)
Spec == Init /\ [][Next]_hv
Count(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
Heap == \A i \in 2..Len(h) : ~(h[i] < h[Parent(i)])
TopLeast == h # <<>> => \A i \in DOMAIN h : ~(h[i] < h[1])
\* the bag of keys changes by exactly what was added or returned
BagStep == \/ \E k \in Keys : /\ Count(h', k) = Count(h, k) + 1
                              /\ \A j \in Keys \ {k} : Count(h', j) = Count(h, j)
           \/ /\ Count(h', out') = Count(h, out') - 1
              /\ \A j \in Keys \ {out'} : Count(h', j) = Count(h, j)
              /\ \A i \in DOMAIN h : out' <= h[i]
Refines == [][BagStep]_h
View == h
PrintEdge == PrintT("EDGE " \o ToJson([s |-> h, a |-> act', t |-> h']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> h]))
=============================================================================
