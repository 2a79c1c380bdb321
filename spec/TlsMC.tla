--------------------------------- MODULE TlsMC ---------------------------------
(* The steps of ThreadLocal: the slot is created by whoever moves the state
   from "un" to "ing"; it is used only in state "ok"; a refused creation moves
   the state back.  Others that want a slot meanwhile give way and retry.  A
   thread's first store can be refused, which ends the program (here: the
   thread).                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Vars, MaxOps, MaxRefuse, MaxLose, Vals
VARIABLES st, kv, want, pc, left, refuse, lose, act, ok
mvars == <<st, kv, want, pc, left, refuse, lose, ok>>
A(t, o) == act' = [t |-> t, o |-> o]
Idle == [o |-> "idle", v |-> 0, x |-> 0]
Init == /\ st = [v \in Vars |-> "un"] /\ kv = [v \in Vars |-> [t \in Threads |-> 0]]
        /\ want = [v \in Vars |-> [t \in Threads |-> 0]]
        /\ pc = [t \in Threads |-> Idle] /\ left \in [Threads -> {MaxOps}] /\ refuse \in 0..MaxRefuse /\ lose \in 0..MaxLose
        /\ ok = TRUE /\ act = [t |-> 0, o |-> "init"]
Go(t, o, v, x) == pc' = [pc EXCEPT ![t] = [o |-> o, v |-> v, x |-> x]]
Ret(t) == pc' = [pc EXCEPT ![t] = Idle]
CallGet(t, v) == /\ pc[t].o = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "get", v, 0)
                 /\ A(t, <<"G", v, 0>>) /\ UNCHANGED <<st, kv, want, refuse, ok, lose>>
\* T: allocate, then store if there is a slot
CallSet(t, v, x) == /\ pc[t].o = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "try", v, x)
                    /\ A(t, <<"T", v, x>>) /\ UNCHANGED <<st, kv, want, refuse, ok, lose>>
DoGet(t) == LET v == pc[t].v IN
            /\ pc[t].o = "get" /\ A(t, <<>>)
            /\ IF st[v] = "ok" THEN Go(t, "read", v, 0) /\ UNCHANGED ok
               ELSE Ret(t) /\ ok' = (ok /\ want[v][t] = 0)
            /\ UNCHANGED <<st, kv, want, left, refuse, lose>>
Read(t) == LET v == pc[t].v IN
           /\ pc[t].o = "read" /\ A(t, <<>>) /\ Ret(t) /\ ok' = (ok /\ kv[v][t] = want[v][t])
           /\ UNCHANGED <<st, kv, want, left, refuse, lose>>
Try(t) == LET v == pc[t].v IN
          /\ pc[t].o = "try" /\ A(t, <<>>)
          /\ \/ st[v] = "un" /\ st' = [st EXCEPT ![v] = "ing"] /\ Go(t, "create", v, pc[t].x)
             \/ st[v] = "ok" /\ Go(t, "store", v, pc[t].x) /\ UNCHANGED st
          /\ UNCHANGED <<kv, want, left, refuse, ok, lose>>
Create(t) == LET v == pc[t].v IN
             /\ pc[t].o = "create" /\ A(t, <<>>)
             /\ IF refuse > 0 THEN refuse' = refuse - 1 /\ Go(t, "back", v, pc[t].x)
                ELSE Go(t, "publish", v, pc[t].x) /\ UNCHANGED refuse
             /\ UNCHANGED <<st, kv, want, left, ok, lose>>
Publish(t) == LET v == pc[t].v IN
              /\ pc[t].o = "publish" /\ A(t, <<>>) /\ st' = [st EXCEPT ![v] = "ok"] /\ Go(t, "store", v, pc[t].x)
              /\ UNCHANGED <<kv, want, left, refuse, ok, lose>>
Back(t) == LET v == pc[t].v IN
           /\ pc[t].o = "back" /\ A(t, <<>>) /\ st' = [st EXCEPT ![v] = "un"] /\ Ret(t)
           /\ UNCHANGED <<kv, want, left, refuse, ok, lose>>
\* a thread's first value in a slot needs memory; without it the call never returns
Store(t) == LET v == pc[t].v IN
            /\ pc[t].o = "store" /\ A(t, <<>>) /\ UNCHANGED <<st, left, refuse, ok>>
            /\ IF lose > 0 /\ kv[v][t] = 0
               THEN lose' = lose - 1 /\ Go(t, "ended", 0, 0) /\ UNCHANGED <<kv, want>>
               ELSE /\ kv' = [kv EXCEPT ![v][t] = pc[t].x] /\ want' = [want EXCEPT ![v][t] = pc[t].x]
                    /\ Ret(t) /\ UNCHANGED lose
Inner(t) == DoGet(t) \/ Read(t) \/ Try(t) \/ Create(t) \/ Publish(t) \/ Back(t) \/ Store(t)
Step(t) == (\E v \in Vars : CallGet(t, v) \/ \E x \in Vals : CallSet(t, v, x)) \/ Inner(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : WF_mvars(Inner(t))
ReadsOwn == ok
OneCreator == \A v \in Vars : Cardinality({t \in Threads : pc[t].o \in {"create", "publish", "back"} /\ pc[t].v = v}) =
                              (IF st[v] = "ing" THEN 1 ELSE 0)
SlotFirst == \A t \in Threads : pc[t].o \in {"read", "store"} => st[pc[t].v] = "ok"
Returns == \A t \in Threads : []<>(pc[t].o \in {"idle", "ended"})
View == mvars
S0 == <<st, kv, pc, left, refuse, lose>>
N == Cardinality(Threads)
Sq(f) == [i \in 1..N |-> f[i - 1]]
SqV(f) == [i \in 1..Cardinality(Vars) |-> f[i - 1]]
K == <<SqV(st), SqV([v \in Vars |-> Sq(kv[v])]), Sq(pc), Sq(left), refuse, lose>>
PrintEdge == PrintT("EDGE " \o ToJson([s |-> K, a |-> act', t |-> K']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> K]))
=============================================================================
