--------------------------------- MODULE FunMC --------------------------------
(* am-function.h: impl pointer, inline buffer or heap, assignment by building a
   temporary and then releasing the old callable.  Objects are numbered, so
   that ownership is explicit; refines FunVal.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vars, Xs, Objs, MaxD
VARIABLES impl,    \* var -> object or 0
          where,   \* object -> "free", "heap", or the variable whose buffer holds it
          body,    \* object -> [k, x, d]
          act
ov == <<impl, where, body>>
Empty == [k |-> "none", x |-> 0, d |-> 0]
Small == "word"
Big == "big"
Blank == Empty
Init == /\ impl = [v \in Vars |-> 0] /\ where = [o \in Objs |-> "free"] /\ body = [o \in Objs |-> Blank]
        /\ act = [o |-> "init", a |-> 0, b |-> 0, k |-> "", x |-> 0]
Fresh == CHOOSE o \in Objs : where[o] = "free" /\ \A p \in Objs : where[p] = "free" => o <= p
A(o, a, b, k, x) == act' = [o |-> o, a |-> a, b |-> b, k |-> k, x |-> x]
\* release what v holds (in im, wh)
Drop(v, wh) == IF impl[v] = 0 THEN wh ELSE [wh EXCEPT ![impl[v]] = "free"]
Place(val, v) == IF val.d = 0 /\ val.k = Small THEN ToString(v) ELSE "heap"
\* v receives a new callable with the given value, built before the old one goes
Put(v, val) ==
    IF val = Empty
    THEN /\ impl' = [impl EXCEPT ![v] = 0] /\ where' = Drop(v, where) /\ UNCHANGED body
    ELSE LET o == Fresh
         IN /\ impl' = [impl EXCEPT ![v] = o]
            /\ where' = [Drop(v, where) EXCEPT ![o] = Place(val, v)]
            /\ body' = [body EXCEPT ![o] = val]
Val(v) == IF impl[v] = 0 THEN Empty ELSE body[impl[v]]
DoMove(v, w) ==
    IF v = w THEN UNCHANGED ov
    ELSE IF impl[w] = 0 THEN Put(v, Empty)
    ELSE IF where[impl[w]] = "heap"           \* the pointer changes hands
    THEN /\ impl' = [impl EXCEPT ![v] = impl[w], ![w] = 0]
         /\ where' = Drop(v, where) /\ UNCHANGED body
    ELSE LET o == Fresh                       \* move-construct, destroy the source
         IN /\ impl' = [impl EXCEPT ![v] = o, ![w] = 0]
            /\ where' = [Drop(v, where) EXCEPT ![o] = ToString(v), ![impl[w]] = "free"]
            /\ body' = [body EXCEPT ![o] = Val(w)]
Next ==
    \/ \E v \in Vars, k \in {Small, Big}, x \in Xs : Put(v, [k |-> k, x |-> x, d |-> 0]) /\ A("set", v, 0, k, x)
    \/ \E v \in Vars : Put(v, Empty) /\ A("null", v, 0, "", 0)
    \/ \E v, w \in Vars : Put(v, Val(w)) /\ A("copy", v, w, "", 0)
    \/ \E v, w \in Vars : DoMove(v, w) /\ A("move", v, w, "", 0)
    \/ \E v, w \in Vars : Val(w) # Empty /\ Val(w).d < MaxD /\ Put(v, [Val(w) EXCEPT !.d = @ + 1]) /\ A("nest", v, w, "", 0)
    \/ \E v \in Vars : Val(v) # Empty /\ Val(v).d > 0 /\ Put(v, [Val(v) EXCEPT !.d = @ - 1]) /\ A("unnest", v, 0, "", 0)
Spec == Init /\ [][Next]_ov
Owned == /\ \A v, w \in Vars : v # w /\ impl[v] # 0 => impl[v] # impl[w]
         /\ \A o \in Objs : where[o] # "free" <=> \E v \in Vars : impl[v] = o
         /\ \A v \in Vars : impl[v] # 0 => where[impl[v]] \in {"heap", ToString(v)}
SmallInline == \A v \in Vars : Val(v).k = Small /\ Val(v).d = 0 => where[impl[v]] = ToString(v)
F == INSTANCE FunVal WITH fv <- [v \in Vars |-> Val(v)]
AbsNext == \/ \E v \in Vars, k \in {Small, Big}, x \in Xs : F!Store(v, k, x)
           \/ \E v \in Vars : F!Null(v) \/ F!Unnest(v)
           \/ \E v, w \in Vars : F!Copy(v, w) \/ F!Move(v, w) \/ F!Nest(v, w)
Refines == [][AbsNext]_ov
AbsView == [v \in Vars |-> Val(v)]
Js(f) == [i \in 1..Cardinality(Vars) |-> f[i - 1]]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> Js(AbsView), a |-> act', t |-> Js(AbsView)']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> Js(AbsView)]))
=============================================================================
