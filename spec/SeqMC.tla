--------------------------------- MODULE SeqMC ---------------------------------
(* Histories over two sequences of elements that can be told apart: val[x] is
   the value of element x.  gone: the elements taken out.                      *)
EXTENDS SeqHelp, TLC, Json
CONSTANTS Els, MaxLen
VARIABLES gone, act
vars == <<q, gone>>
A(o, a, b, x) == act' = [o |-> o, a |-> a, b |-> b, x |-> x]
In(v) == {q[v][i] : i \in DOMAIN q[v]}
Used == UNION {In(v) : v \in Vs} \union gone
Fresh == IF Els \ Used = {} THEN 0 ELSE CHOOSE x \in Els \ Used : \A y \in Els \ Used : x <= y
Init == Init0 /\ gone = {} /\ act = [o |-> "init", a |-> 0, b |-> 0, x |-> 0]
Room(v) == Len(q[v]) < MaxLen /\ Fresh # 0
Next ==
    \/ \E v \in Vs : Room(v) /\ Push(v, Fresh) /\ A("push", v, 0, Fresh) /\ UNCHANGED gone
    \/ \E v \in Vs : PopBack(v) /\ gone' = gone \union {Last(q[v])} /\ A("popback", v, 0, Last(q[v]))
    \/ \E v \in Vs, i \in 0..MaxLen : Room(v) /\ Insert(v, i, Fresh) /\ A("insert", v, i, Fresh) /\ UNCHANGED gone
    \/ \E v \in Vs, i \in 0..MaxLen : Remove(v, i) /\ gone' = gone \union {q[v][i + 1]} /\ A("remove", v, i, 0)
    \/ \E v \in Vs, m \in SUBSET Els : /\ m \subseteq In(v) /\ EraseIf(v, LAMBDA x : x \in m) /\ gone' = gone \union m
                                       /\ act' = [o |-> "erase", a |-> v, b |-> 0, x |-> 0, m |-> m]
    \/ \E v, w \in Vs : Len(q[v]) + Len(q[w]) <= MaxLen /\ Extend(v, w) /\ A("extend", v, w, 0) /\ UNCHANGED gone
Spec == Init /\ [][Next]_vars
View == vars
\* nothing is lost or duplicated
Conserved == /\ \A v, w \in Vs : v # w => In(v) \cap In(w) = {}
             /\ \A v \in Vs : Cardinality(In(v)) = Len(q[v]) /\ In(v) \cap gone = {}
\* what stays keeps its order
Before(s, x, y) == \E i, j \in DOMAIN s : i < j /\ s[i] = x /\ s[j] = y
Order == [][\A v, w \in Vs : \A x, y \in In(v) : Before(q[v], x, y) /\ {x, y} \subseteq {q'[w][i] : i \in DOMAIN q'[w]} => Before(q'[w], x, y)]_vars
PrintEdge == PrintT("EDGE " \o ToJson([s |-> ToString(View), a |-> act', t |-> ToString(View')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> ToString(View)]))
=============================================================================
