------------------------------ MODULE RefCountMC ------------------------------
(* Exhaustive exploration of RefCount with few objects and variables.  Var 3
   stands for an AlreadyRefed, 2 for a RefPtr to the derived class; object 1
   is of the derived class.                                                   *)
EXTENDS RefCount, Json
CONSTANTS MaxMan
VARIABLE act
A(o, a, b) == act' = [o |-> o, a |-> a, b |-> b]
Derived == {1}
DVars == {2}
RV == {0, 1, 2} \cap Vars        \* RefPtr variables
AV == {3} \cap Vars              \* AlreadyRefed variables
Fits(v, o) == o = 0 \/ v \notin DVars \/ o \in Derived
CopyOK(v, w) == v \in DVars => w \in DVars

MCInit == RInit /\ act = [o |-> "init", a |-> 0, b |-> 0]
MCNext ==
    \/ \E v \in RV, o \in Objs : Fits(v, o) /\ New(v, o) /\ A("new", v, o)
    \/ \E o \in Objs : nb = {} /\ NewRaw(o) /\ A("newraw", o, 0)
    \/ \E o \in Objs : DeleteRaw(o) /\ A("delraw", o, 0)
    \/ \E v \in RV, o \in nb : Fits(v, o) /\ Set(v, o) /\ A("setraw", v, o)
    \/ \E v \in RV : Set(v, 0) /\ A("null", v, 0)
    \/ \E v, w \in RV : CopyOK(v, w) /\ Copy(v, w) /\ A("copy", v, w)
    \/ \E v, w \in RV : CopyOK(v, w) /\ Move(v, w) /\ A("move", v, w)
    \/ \E v, w \in RV : Link(v, w) /\ A("link", v, w)
    \/ \E v, w \in RV : w \notin DVars /\ LinkMove(v, w) /\ A("linkmove", v, w)
    \/ \E v \in RV \ DVars : Chase(v) /\ A("chase", v, 0)
    \/ \E v \in RV \ DVars : ChaseMove(v) /\ A("chasemove", v, 0)
    \/ \E v \in RV : ChaseOver(v) /\ A("chaseover", v, 0)
    \/ \E v \in RV : val[v] # 0 /\ man[val[v]] < MaxMan /\ AddRef(v) /\ A("addref", v, 0)
    \/ \E o \in Objs : Release(o) /\ A("release", o, 0)
    \/ \E v \in RV, o \in Objs : Fits(v, o) /\ Adopt(v, o) /\ A("adopt", v, o)
    \/ \E a \in AV, v \in RV : val[a] = 0 /\ Move(a, v) /\ A("take", a, v)
    \/ \E v \in RV \ DVars, a \in AV : val[a] # 0 /\ Move(v, a) /\ A("aassign", v, a)
    \/ \E a \in AV : val[a] # 0 /\ Set(a, 0) /\ A("adrop", a, 0)
MCSpec == MCInit /\ [][MCNext]_rvars
View == rvars
Js(V, N, M, L, B) == [v |-> [i \in 1..Cardinality(Vars) |-> V[i - 1]], n |-> [i \in 1..Cardinality(Objs) |-> N[i]],
                      m |-> [i \in 1..Cardinality(Objs) |-> M[i]], l |-> [i \in 1..Cardinality(Objs) |-> i \in L],
                      b |-> [i \in 1..Cardinality(Objs) |-> i \in B]]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> Js(val, nxt, man, alive, nb), a |-> act', t |-> Js(val', nxt', man', alive', nb')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> Js(val, nxt, man, alive, nb)]))
=============================================================================
