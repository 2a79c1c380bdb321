-------------------------------- MODULE RaiiMC ---------------------------------
(* Every history of the helpers, saves and links ending in reverse order of
   creation.  fate[id]: what became of the obligation id.                      *)
EXTENDS RaiiVal, TLC, Json
CONSTANTS Xs, Ids, Part
VARIABLES stack, fate, act
vars == <<cell, saves, chain, guard, stack, fate>>
A(o, a, b, x) == act' = [o |-> o, a |-> a, b |-> b, x |-> x]
Init == Init0 /\ stack = <<>> /\ fate = [i \in Ids |-> "none"] /\ act = [o |-> "init", a |-> 0, b |-> 0, x |-> 0]
Inside(c) == \E o \in Slots : saves[o].on /\ saves[o].c = c
SaveNext ==
    \/ \E o \in Slots, c \in Cells, x \in Xs : Save(o, c, x) /\ stack' = <<o>> \o stack /\ A("save", o, c, x)
    \/ stack # <<>> /\ Unsave(Head(stack)) /\ stack' = Tail(stack) /\ A("unsave", Head(stack), 0, 0)
    \/ \E c \in Cells, x \in Xs : Inside(c) /\ Write(c, x) /\ A("write", c, 0, x) /\ UNCHANGED stack
    \/ \E c \in Cells : Inside(c) /\ Take(c, cell[c]) /\ A("take", c, 0, 0) /\ UNCHANGED stack
LinkNext ==
    \/ \E o \in Slots, h \in Heads : Link(o, h) /\ A("link", o, h, 0) /\ UNCHANGED stack
    \/ \E h \in Heads : chain[h] # <<>> /\ Unlink(Head(chain[h]), h) /\ A("unlink", Head(chain[h]), 0, 0) /\ UNCHANGED stack
GuardNext ==
    \/ \E o \in Slots, i \in Ids : fate[i] = "none" /\ Guard(o, i) /\ fate' = [fate EXCEPT ![i] = "owed"] /\ A("guard", o, 0, i)
    \/ \E o \in Slots : Cancel(o) /\ A("cancel", o, 0, 0)
                        /\ fate' = IF guard[o].armed THEN [fate EXCEPT ![guard[o].id] = "void"] ELSE fate
    \/ \E o, p \in Slots : MoveGuard(o, p) /\ A("move", o, p, 0) /\ UNCHANGED fate
    \/ \E o \in Slots : Unguard(o) /\ A("unguard", o, 0, 0)
                        /\ fate' = IF guard[o].armed THEN [fate EXCEPT ![guard[o].id] = "run"] ELSE fate
Next == \/ Part = "save" /\ SaveNext /\ UNCHANGED fate
        \/ Part = "link" /\ LinkNext /\ UNCHANGED fate
        \/ Part = "guard" /\ GuardNext /\ UNCHANGED stack
Spec == Init /\ [][Next]_vars
View == vars
\* what is written inside scopes is undone when they have all ended
Restored == \A c \in Cells : ~Inside(c) => cell[c] = 0
\* an obligation is owed by exactly one guard, until it is run or void, for good
Owed == \A i \in Ids : Cardinality({o \in Slots : guard[o].on /\ guard[o].armed /\ guard[o].id = i}) = (IF fate[i] = "owed" THEN 1 ELSE 0)
Once == [][\A i \in Ids : fate[i] \in {"run", "void"} => fate'[i] = fate[i]]_vars
Seqz(f) == f
PrintEdge == PrintT("EDGE " \o ToJson([s |-> ToString(View), a |-> act', t |-> ToString(View')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> ToString(View)]))
=============================================================================
