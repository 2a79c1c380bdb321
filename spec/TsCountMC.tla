------------------------------- MODULE TsCountMC -------------------------------
(* The atomic steps of am-refcounting-threadsafe.h: AddRef is one increment;
   Release is one fetch-and-subtract, and whoever read 1 deletes.  Refines
   TsCount (happens-before left out: every step is sequentially consistent).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxOwn
VARIABLES cnt, own, pc, dead, act
mvars == <<cnt, own, pc, dead>>
A(t, o) == act' = [t |-> t, o |-> o]
Init == /\ own \in [Threads -> 0..MaxOwn] /\ (\E t \in Threads : own[t] > 0)
        /\ cnt = LET RECURSIVE S(_) S(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN own[t] + S(T \ {t}) IN S(Threads)
        /\ pc = [t \in Threads |-> "idle"] /\ dead = FALSE /\ act = [t |-> 0, o |-> "init"]
CallAdd(t) == pc[t] = "idle" /\ own[t] \in 1..(MaxOwn - 1) /\ own' = [own EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "inc"] /\ UNCHANGED <<cnt, dead>> /\ A(t, "a")
Inc(t) == pc[t] = "inc" /\ cnt' = cnt + 1 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<own, dead>> /\ A(t, ".")
CallRel(t) == pc[t] = "idle" /\ own[t] > 0 /\ own' = [own EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "dec"] /\ UNCHANGED <<cnt, dead>> /\ A(t, "r")
Dec(t) == pc[t] = "dec" /\ cnt' = cnt - 1 /\ pc' = [pc EXCEPT ![t] = IF cnt = 1 THEN "del" ELSE "idle"] /\ UNCHANGED <<own, dead>> /\ A(t, ".")
Del(t) == pc[t] = "del" /\ dead' = TRUE /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<own, cnt>> /\ A(t, ".")
Step(t) == CallAdd(t) \/ Inc(t) \/ CallRel(t) \/ Dec(t) \/ Del(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : WF_mvars(Inc(t) \/ Dec(t) \/ Del(t) \/ CallRel(t))
OwnSum == LET RECURSIVE S(_) S(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN own[t] + S(T \ {t}) IN S(Threads)
OneKiller == Cardinality({t \in Threads : pc[t] = "del"}) <= 1 /\ (dead => \A t \in Threads : pc[t] # "del")
NoLiveRefAtDeath == (dead \/ \E t \in Threads : pc[t] = "del") => OwnSum = 0 /\ \A t \in Threads : pc[t] \notin {"inc", "dec"}
Counted == cnt >= 0 /\ cnt = OwnSum - Cardinality({t \in Threads : pc[t] = "inc"}) + Cardinality({t \in Threads : pc[t] = "dec"})
\* once nobody owns a reference, the object is destroyed
Dies == [](OwnSum = 0 => <>dead)
View == mvars
Sq(f) == [i \in 1..Cardinality(Threads) |-> f[i - 1]]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> <<cnt, Sq(own), Sq(pc), dead>>, a |-> act', t |-> <<cnt', Sq(own'), Sq(pc'), dead'>>]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> <<cnt, Sq(own), Sq(pc), dead>>]))
=============================================================================
