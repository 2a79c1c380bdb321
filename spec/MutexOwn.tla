------------------------------- MODULE MutexOwn -------------------------------
(* C09: who holds which mutex.  busy counts the acquisitions and releases that
   are under way, in which the mutex may be held without it being recorded.   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Mutexes
VARIABLES holder, busy, trying, dbg
mvars == <<holder, busy, trying, dbg>>
Nobody == -1
MUInit == /\ holder = [m \in Mutexes |-> Nobody] /\ busy = [m \in Mutexes |-> {}]
          /\ trying = [t \in Threads |-> [m |-> -1, seen |-> FALSE]] /\ dbg = 0
Begin(d) == /\ holder' = [m \in Mutexes |-> Nobody] /\ busy' = [m \in Mutexes |-> {}]
            /\ trying' = [t \in Threads |-> [m |-> -1, seen |-> FALSE]] /\ dbg' = d
\* everyone trying m meanwhile may find it held
Contend(m) == trying' = [t \in Threads |-> IF trying[t].m = m THEN [m |-> m, seen |-> TRUE] ELSE trying[t]]
Want(t, m) == busy' = [busy EXCEPT ![m] = @ \cup {t}] /\ Contend(m) /\ UNCHANGED <<holder, dbg>>
Acq(t, m) == /\ holder[m] = Nobody /\ holder' = [holder EXCEPT ![m] = t]
             /\ busy' = [busy EXCEPT ![m] = @ \ {t}] /\ Contend(m) /\ UNCHANGED dbg
Rel(t, m) == /\ holder[m] = t /\ holder' = [holder EXCEPT ![m] = Nobody]
             /\ busy' = [busy EXCEPT ![m] = @ \cup {t}] /\ UNCHANGED <<trying, dbg>>
RelRet(t, m) == busy' = [busy EXCEPT ![m] = @ \ {t}] /\ UNCHANGED <<holder, trying, dbg>>
Try(t, m) == /\ trying' = [u \in Threads |-> IF u = t THEN [m |-> m, seen |-> holder[m] # Nobody \/ busy[m] # {}]
                                             ELSE IF trying[u].m = m THEN [m |-> m, seen |-> TRUE] ELSE trying[u]]
             /\ busy' = [busy EXCEPT ![m] = @ \cup {t}] /\ UNCHANGED <<holder, dbg>>
TryRet(t, m, res) ==
    /\ busy' = [busy EXCEPT ![m] = @ \ {t}]
    /\ trying' = [u \in Threads |-> IF u = t THEN [m |-> -1, seen |-> FALSE] ELSE IF trying[u].m = m THEN [m |-> m, seen |-> TRUE] ELSE trying[u]]
    /\ IF res = 1 THEN holder[m] = Nobody /\ holder' = [holder EXCEPT ![m] = t]
       ELSE trying[t].seen /\ UNCHANGED holder
    /\ UNCHANGED dbg
Owns(t, m, res) == (dbg = 1 => (res = 1 <=> holder[m] = t)) /\ (dbg = 0 => res = 1) /\ UNCHANGED mvars
Finish == (\A m \in Mutexes : holder[m] = Nobody /\ busy[m] = {}) /\ UNCHANGED mvars
=============================================================================
