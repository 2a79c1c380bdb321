--------------------------------- MODULE ListMC -------------------------------
(* Implementation-shaped: the circular links of am-inlinelist.h, with the list
   head as a node, refining ListSeq.  Its state graph gives the histories.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lists, Nodes       \* list heads are the negative numbers
VARIABLES nx, pv, act
MCLists == {-1, -2}
Null == 0
Everyone == Lists \cup Nodes
Init == /\ nx = [x \in Everyone |-> IF x \in Lists THEN x ELSE Null]
        /\ pv = nx
        /\ act = [o |-> "init", a |-> 0, b |-> 0]
In(n) == nx[n] # Null
RECURSIVE Walk(_, _, _)
Walk(f, at, head) == IF at = head THEN <<>> ELSE <<at>> \o Walk(f, f[at], head)
Seq1(L) == Walk(nx, nx[L], L)
Back(L) == Walk(pv, pv[L], L)
Unlink(n) == /\ nx' = [nx EXCEPT ![pv[n]] = nx[n], ![n] = Null]
             /\ pv' = [pv EXCEPT ![nx[n]] = pv[n], ![n] = Null]
Link(L, n) == /\ pv' = [pv EXCEPT ![n] = pv[L], ![L] = n]
              /\ nx' = [nx EXCEPT ![n] = L, ![pv[L]] = n]
Mem(L, n) == \E i \in DOMAIN Seq1(L) : Seq1(L)[i] = n
A(o, a, b) == act' = [o |-> o, a |-> a, b |-> b]
Next == \/ \E L \in Lists, n \in Nodes : ~In(n) /\ Link(L, n) /\ A("append", L, n)
        \/ \E L \in Lists, n \in Nodes : In(n) /\ Mem(L, n) /\ Unlink(n) /\ \E o \in {"remove", "ef", "er"} : A(o, L, n)
        \/ \E n \in Nodes : In(n) /\ Unlink(n) /\ A("rmself", n, 0)
Spec == Init /\ [][Next]_<<nx, pv>>
Abs == INSTANCE ListSeq WITH lst <- [L \in Lists |-> Seq1(L)], up <- Lists, orphan <- {}
Linked == /\ Abs!OneListOnly
          /\ \A L \in Lists : Back(L) = Abs!Reverse(Seq1(L))
          /\ \A x \in Everyone : nx[x] # Null => pv[nx[x]] = x
          /\ \A n \in Nodes : In(n) <=> Abs!Member(n)
AbsStep == \/ \E L \in Lists, n \in Nodes : Abs!Append_(L, n) \/ Abs!Remove(L, n)
           \/ UNCHANGED <<nx, pv>>
Refines == [][AbsStep]_<<nx, pv>>
View == <<nx, pv>>
Order == CHOOSE s \in [1..Cardinality(Everyone) -> Everyone] : \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Js(f) == [i \in DOMAIN Order |-> f[Order[i]]]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> Js(nx), a |-> act', t |-> Js(nx')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> Js(nx)]))
=============================================================================
