-------------------------------- MODULE MaybeMC -------------------------------
(* am-maybe.h: a flag and a buffer that may hold an object.  made and gone
   count the objects, so that none is lost or destroyed twice.
   putf, copyf, movef: the new value's constructor throws (what was there is
   destroyed by then).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vars, Xs
VARIABLES flag, buf, act      \* buf[v]: 0 raw memory, else the object's value
mvars == <<flag, buf>>
A(o, a, b, x) == act' = [o |-> o, a |-> a, b |-> b, x |-> x]
Init == flag = [v \in Vars |-> FALSE] /\ buf = [v \in Vars |-> 0] /\ act = [o |-> "init", a |-> 0, b |-> 0, x |-> 0]
\* every step: destroy what the target holds, construct, set the flag; a moved-from source is destroyed too
SetTo(v, x) == flag' = [flag EXCEPT ![v] = (x # 0)] /\ buf' = [buf EXCEPT ![v] = x]
Next == \/ \E v \in Vars, x \in Xs : SetTo(v, x) /\ A("put", v, 0, x)
        \/ \E v \in Vars : SetTo(v, 0) /\ A("clear", v, 0, 0)
        \/ \E v, w \in Vars : SetTo(v, IF flag[w] THEN buf[w] ELSE 0) /\ A("copy", v, w, 0)
        \/ \E v, w \in Vars : /\ A("move", v, w, 0)
                              /\ IF v = w THEN UNCHANGED mvars
                                 ELSE /\ flag' = [flag EXCEPT ![v] = flag[w], ![w] = FALSE]
                                      /\ buf' = [buf EXCEPT ![v] = buf[w], ![w] = 0]
        \/ \E v \in Vars, x \in Xs : SetTo(v, 0) /\ A("putf", v, 0, x)
        \/ \E v, w \in Vars : /\ A("copyf", v, w, 0)
                              /\ IF v # w /\ flag[w] THEN SetTo(v, 0) ELSE UNCHANGED mvars
        \/ \E v, w \in Vars : /\ A("movef", v, w, 0)
                              /\ IF v # w /\ flag[w] THEN SetTo(v, 0) ELSE UNCHANGED mvars
Spec == Init /\ [][Next]_mvars
FlagIsObject == \A v \in Vars : flag[v] <=> buf[v] # 0
M == INSTANCE MaybeVal WITH mv <- buf
AbsNext == \/ \E v \in Vars, x \in Xs : M!Put(v, x)
           \/ \E v \in Vars : M!Clear(v)
           \/ \E v, w \in Vars : M!Copy(v, w) \/ M!Move(v, w)
           \/ \E v \in Vars : M!Failed(v)
Refines == [][AbsNext]_mvars
View == mvars
Js(f) == [i \in 1..Cardinality(Vars) |-> f[i - 1]]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> Js(buf), a |-> act', t |-> Js(buf')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> Js(buf)]))
=============================================================================
