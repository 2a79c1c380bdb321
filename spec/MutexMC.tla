-------------------------------- MODULE MutexMC --------------------------------
(* The steps of ke::Mutex in debug builds: the underlying lock, and the owner
   written after acquiring it and cleared before releasing it.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxOps
VARIABLES lock, owner, pc, left, act
mvars == <<lock, owner, pc, left>>
Nobody == 99
A(t, o) == act' = [t |-> t, o |-> o]
Init == /\ lock = Nobody /\ owner = Nobody /\ pc = [t \in Threads |-> "out"] /\ left = [t \in Threads |-> MaxOps] /\ act = [t |-> 0, o |-> "init"]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Use(t) == left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
CallLock(t) == pc[t] = "out" /\ Use(t) /\ Go(t, "locking") /\ UNCHANGED <<lock, owner>> /\ A(t, "L")
DoLock(t) == pc[t] = "locking" /\ lock = Nobody /\ lock' = t /\ Go(t, "mark") /\ UNCHANGED <<owner, left>> /\ A(t, ".")
Mark(t) == pc[t] = "mark" /\ owner' = t /\ Go(t, "in") /\ UNCHANGED <<lock, left>> /\ A(t, ".")
CallTry(t) == pc[t] = "out" /\ Use(t) /\ Go(t, "trying") /\ UNCHANGED <<lock, owner>> /\ A(t, "T")
DoTry(t) == /\ pc[t] = "trying" /\ A(t, ".") /\ UNCHANGED <<owner, left>>
            /\ IF lock = Nobody THEN lock' = t /\ Go(t, "mark") ELSE UNCHANGED lock /\ Go(t, "out")
CallUnlock(t) == pc[t] = "in" /\ Go(t, "clear") /\ UNCHANGED <<lock, owner, left>> /\ A(t, "U")
Clear(t) == pc[t] = "clear" /\ owner' = Nobody /\ Go(t, "unlocking") /\ UNCHANGED <<lock, left>> /\ A(t, ".")
DoUnlock(t) == pc[t] = "unlocking" /\ lock' = Nobody /\ Go(t, "out") /\ UNCHANGED <<owner, left>> /\ A(t, ".")
Ask(t) == pc[t] \in {"in", "out"} /\ Use(t) /\ UNCHANGED <<lock, owner, pc>> /\ A(t, "O")
Step(t) == CallLock(t) \/ DoLock(t) \/ Mark(t) \/ CallTry(t) \/ DoTry(t) \/ CallUnlock(t) \/ Clear(t) \/ DoUnlock(t) \/ Ask(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : SF_mvars(DoLock(t)) /\ WF_mvars(Mark(t) \/ DoTry(t) \/ CallUnlock(t) \/ Clear(t) \/ DoUnlock(t))
Exclusion == Cardinality({t \in Threads : pc[t] \in {"mark", "in", "clear", "unlocking"}}) <= 1
AssertExact == \A t \in Threads : pc[t] \in {"in", "out", "locking", "trying"} => (owner = t <=> pc[t] = "in")
Released == \A t \in Threads : (pc[t] = "locking") ~> (pc[t] = "in")
View == mvars
N == Cardinality(Threads)
Sq(f) == [i \in 1..N |-> f[i - 1]]
K == <<lock, owner, Sq(pc), Sq(left)>>
PrintEdge == PrintT("EDGE " \o ToJson([s |-> K, a |-> act', t |-> K']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> K]))
=============================================================================
