------------------------------ MODULE AtomicRefMC ------------------------------
(* AtomicRef at the granularity of its atomic operations: load, compare and
   swap that sets the tag bit, add a reference, store that clears the tag,
   release of what was replaced.  Objects carry explicit counts.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Objs, MaxOps
VARIABLES ptr, locked, cnt, alive, pc, old, arg, kind, held, ops, fresh, act
mvars == <<ptr, locked, cnt, alive, pc, old, arg, kind, held, ops, fresh>>
A(t, o) == act' = [t |-> t, o |-> o]
Init == /\ ptr = 1 /\ locked = FALSE /\ cnt = [o \in Objs |-> IF o = 1 THEN 1 ELSE 0] /\ alive = {1}
        /\ pc = [t \in Threads |-> "idle"] /\ old = [t \in Threads |-> 0] /\ arg = [t \in Threads |-> 0]
        /\ kind = [t \in Threads |-> "-"] /\ held = [t \in Threads |-> 0] /\ ops = [t \in Threads |-> 0]
        /\ fresh = 2 /\ act = [t |-> 0, o |-> "init"]
Rest(v) == UNCHANGED v
StartRead(t) == /\ pc[t] = "idle" /\ held[t] = 0 /\ ops[t] < MaxOps
                /\ pc' = [pc EXCEPT ![t] = "load"] /\ kind' = [kind EXCEPT ![t] = "R"] /\ ops' = [ops EXCEPT ![t] = @ + 1]
                /\ UNCHANGED <<ptr, locked, cnt, alive, old, arg, held, fresh>> /\ A(t, "R")
StartWrite(t, o) == /\ pc[t] = "idle" /\ ops[t] < MaxOps
                    /\ pc' = [pc EXCEPT ![t] = "load"] /\ kind' = [kind EXCEPT ![t] = "W"] /\ ops' = [ops EXCEPT ![t] = @ + 1]
                    /\ arg' = [arg EXCEPT ![t] = o]
                    /\ UNCHANGED <<ptr, locked, cnt, old, held>>
WriteFresh(t) == fresh \in Objs /\ StartWrite(t, fresh) /\ alive' = alive \cup {fresh} /\ fresh' = fresh + 1 /\ A(t, "W")
WriteNull(t) == StartWrite(t, 0) /\ UNCHANGED <<alive, fresh>> /\ A(t, "N")
WriteHeld(t) == held[t] # 0 /\ StartWrite(t, held[t]) /\ UNCHANGED <<alive, fresh>> /\ A(t, "H")
Load(t) == /\ pc[t] = "load" /\ old' = [old EXCEPT ![t] = ptr] /\ pc' = [pc EXCEPT ![t] = "cas"]
           /\ UNCHANGED <<ptr, locked, cnt, alive, arg, kind, held, ops, fresh>> /\ A(t, ".")
Cas(t) == /\ pc[t] = "cas"
          /\ IF ~locked /\ ptr = old[t] THEN locked' = TRUE /\ pc' = [pc EXCEPT ![t] = "crit"]
             ELSE UNCHANGED locked /\ pc' = [pc EXCEPT ![t] = "load"]
          /\ UNCHANGED <<ptr, cnt, alive, old, arg, kind, held, ops, fresh>> /\ A(t, ".")
New(t) == IF kind[t] = "R" THEN old[t] ELSE arg[t]
Crit(t) == /\ pc[t] = "crit" /\ pc' = [pc EXCEPT ![t] = "unlock"]
           /\ cnt' = IF New(t) = 0 THEN cnt ELSE [cnt EXCEPT ![New(t)] = @ + 1]
           /\ UNCHANGED <<ptr, locked, alive, old, arg, kind, held, ops, fresh>> /\ A(t, ".")
Unlock(t) == /\ pc[t] = "unlock" /\ ptr' = New(t) /\ locked' = FALSE
             /\ IF kind[t] = "R"
                THEN held' = [held EXCEPT ![t] = old[t]] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ old' = [old EXCEPT ![t] = 0]
                ELSE UNCHANGED <<held, old>> /\ pc' = [pc EXCEPT ![t] = "release"]
             /\ kind' = [kind EXCEPT ![t] = IF @ = "R" THEN "-" ELSE @]
             /\ arg' = [arg EXCEPT ![t] = 0]
             /\ UNCHANGED <<cnt, alive, ops, fresh>> /\ A(t, ".")
Dec(t, o) == /\ cnt' = IF o = 0 THEN cnt ELSE [cnt EXCEPT ![o] = @ - 1]
             /\ alive' = IF o # 0 /\ cnt[o] = 1 THEN alive \ {o} ELSE alive
RelOld(t) == /\ pc[t] = "release" /\ Dec(t, old[t]) /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ old' = [old EXCEPT ![t] = 0] /\ kind' = [kind EXCEPT ![t] = "-"]
             /\ UNCHANGED <<ptr, locked, arg, held, ops, fresh>> /\ A(t, ".")
DropHeld(t) == /\ pc[t] = "idle" /\ held[t] # 0 /\ Dec(t, held[t]) /\ held' = [held EXCEPT ![t] = 0]
               /\ UNCHANGED <<ptr, locked, pc, old, arg, kind, ops, fresh>> /\ A(t, "D")
Inside(t) == Load(t) \/ Cas(t) \/ Crit(t) \/ Unlock(t) \/ RelOld(t)
Next == \E t \in Threads : Inside(t) \/ StartRead(t) \/ WriteFresh(t) \/ WriteNull(t) \/ WriteHeld(t) \/ DropHeld(t)
Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : WF_mvars(Inside(t))
B(x) == IF x THEN 1 ELSE 0
Refs(o) == LET RECURSIVE S(_) S(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE
                IN B(held[t] = o) + B(pc[t] = "unlock" /\ New(t) = o) + B(pc[t] = "release" /\ old[t] = o) + S(T \ {t}) IN S(Threads)
\* every reference is counted, so that nothing alive is missed and nothing dead is referred to
Exact == \A o \in Objs : cnt[o] = Refs(o) + B(ptr = o)
Safe == /\ ptr # 0 => ptr \in alive
        /\ \A t \in Threads : held[t] # 0 => held[t] \in alive
        /\ \A t \in Threads : pc[t] \in {"crit", "unlock"} => old[t] = ptr /\ locked
NoLeak == \A o \in alive : cnt[o] > 0 \/ \E t \in Threads : arg[t] = o /\ pc[t] \in {"load", "cas", "crit"}
OneLocker == Cardinality({t \in Threads : pc[t] \in {"crit", "unlock"}}) = B(locked)
Unlocks == [](locked => <>~locked)
View == mvars
Sq(f) == [i \in 1..Cardinality(Threads) |-> f[i - 1]]
St(p, lk, c, x, o, a, h, n) == <<p, lk, c, Sq(x), Sq(o), Sq(a), Sq(h), Sq(n)>>
PrintEdge == PrintT("EDGE " \o ToJson([s |-> St(ptr, locked, cnt, pc, old, arg, held, ops), a |-> act',
                                       t |-> St(ptr', locked', cnt', pc', old', arg', held', ops')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> St(ptr, locked, cnt, pc, old, arg, held, ops)]))
=============================================================================
