-------------------------------- MODULE ThrLife --------------------------------
(* C30, design: how a named thread comes about. The creator copies the name and
   the callable with its arguments into a closure, starts a thread that owns
   the closure, and may do what it likes with its own name buffer and arguments
   as soon as the call returns.  The thread names itself from the closure, calls
   the callable, and destroys the closure before it counts as over.            *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Creators, Spoilt, Nothing, Accepts(_)     \* Accepts: whether the operating system takes a name
VARIABLES pc,       \* per thread: none, born, named, running, called, over, joined, refused
          back,     \* per thread: has the creating call returned
          buf,      \* the creator's name buffer: the current name there, or Spoilt
          clo,      \* per thread: the closure's name, or Nothing
          shown,    \* per thread: the name it bears
          runs, asked
vars == <<pc, back, buf, clo, shown, runs, asked>>
Init == /\ pc = [k \in Threads |-> "none"] /\ back = [k \in Threads |-> FALSE] /\ buf = Spoilt
        /\ clo = [k \in Threads |-> Nothing] /\ shown = [k \in Threads |-> Creators]
        /\ runs = [k \in Threads |-> 0] /\ asked = [k \in Threads |-> Nothing]
Busy == \E k \in Threads : pc[k] # "none" /\ ~back[k]      \* the creator is inside the call
New(k, n) == /\ pc[k] = "none" /\ ~Busy
             /\ pc' = [pc EXCEPT ![k] = "born"] /\ asked' = [asked EXCEPT ![k] = n] /\ buf' = n
             /\ clo' = [clo EXCEPT ![k] = n]
             /\ UNCHANGED <<back, shown, runs>>
Refuse(k) == /\ pc[k] = "none" /\ ~Busy
             /\ pc' = [pc EXCEPT ![k] = "refused"] /\ back' = [back EXCEPT ![k] = TRUE]
             /\ UNCHANGED <<buf, clo, shown, runs, asked>>
Return(k) == pc[k] # "none" /\ ~back[k] /\ back' = [back EXCEPT ![k] = TRUE] /\ UNCHANGED <<pc, buf, clo, shown, runs, asked>>
Spoil == ~Busy /\ buf # Spoilt /\ buf' = Spoilt /\ UNCHANGED <<pc, back, clo, shown, runs, asked>>
Name(k) == /\ pc[k] = "born" /\ pc' = [pc EXCEPT ![k] = "named"]
           /\ shown' = [shown EXCEPT ![k] = IF Accepts(clo[k]) THEN clo[k] ELSE @]
           /\ UNCHANGED <<back, buf, clo, runs, asked>>
Call(k) == pc[k] = "named" /\ pc' = [pc EXCEPT ![k] = "running"] /\ runs' = [runs EXCEPT ![k] = @ + 1] /\ UNCHANGED <<back, buf, clo, shown, asked>>
End(k) == pc[k] = "running" /\ pc' = [pc EXCEPT ![k] = "called"] /\ UNCHANGED <<back, buf, clo, shown, runs, asked>>
Drop(k) == pc[k] = "called" /\ pc' = [pc EXCEPT ![k] = "over"] /\ clo' = [clo EXCEPT ![k] = Nothing] /\ UNCHANGED <<back, buf, shown, runs, asked>>
Join(k) == pc[k] = "over" /\ back[k] /\ ~Busy /\ pc' = [pc EXCEPT ![k] = "joined"] /\ UNCHANGED <<back, buf, clo, shown, runs, asked>>
\* ---- the property
Once == \A k \in Threads : runs[k] = IF pc[k] \in {"running", "called", "over", "joined"} THEN 1 ELSE 0
Named == \A k \in Threads : pc[k] \in {"running"} /\ Accepts(asked[k]) => shown[k] = asked[k]
Gone == \A k \in Threads : pc[k] \in {"joined", "refused", "none"} => clo[k] = Nothing
Alive == \A k \in Threads : pc[k] \in {"born", "named", "running"} => clo[k] = asked[k]
=============================================================================
