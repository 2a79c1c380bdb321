-------------------------------- MODULE TlsCell --------------------------------
(* C08: every thread has its own cell in every ThreadLocal.  Slots of the
   operating system ("keys") belong to the variable in whose call they were
   created, are used only for it, only after their creation (by
   happens-before), and are gone when it is.                                *)
EXTENDS HB, FiniteSets, TLC
CONSTANTS NeedKey,  \* storage comes from the operating system (not in single-threaded builds)
          Main     \* the thread that sets up and winds up
VARIABLES cell,      \* variable -> thread -> value (0: default)
          there,     \* variables that exist
          call,      \* thread -> [o, v, x, ref]: the call it is in; ref: a slot or the memory for the value was refused meanwhile
          keys       \* key -> [v, by, at, live]
tvars == <<cell, there, call, keys>>
allvars == <<tvars, hbvars>>
All == Threads \cup {Main}
NoCall == [o |-> "none", v |-> -1, x |-> 0, ref |-> FALSE]
None == [v \in {} |-> 0]
TLInit == cell = None /\ there = {} /\ call = [t \in All |-> NoCall] /\ keys = None /\ HBInit
Begin == cell' = None /\ there' = {} /\ call' = [t \in All |-> NoCall] /\ keys' = None /\ HBReset
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Start(t, o, v, x) == call[t].o = "none" /\ call' = [call EXCEPT ![t] = [o |-> o, v |-> v, x |-> x, ref |-> FALSE]]
End(t, o) == call[t].o = o /\ call' = [call EXCEPT ![t] = NoCall]
Keep == UNCHANGED <<keys, hbvars>>

CallNew(t, v) == v \notin there /\ Start(t, "new", v, 0) /\ UNCHANGED <<cell, there>> /\ Keep
RetNew(t) == /\ End(t, "new") /\ there' = there \cup {call[t].v}
             /\ cell' = Put(cell, call[t].v, [u \in All |-> 0]) /\ Keep
CallDel(t, v) == v \in there /\ Start(t, "del", v, 0) /\ there' = there \ {v} /\ UNCHANGED cell /\ Keep
RetDel(t) == /\ End(t, "del") /\ UNCHANGED <<cell, there>> /\ Keep
             /\ \A k \in DOMAIN keys : keys[k].v = call[t].v => ~keys[k].live
CallSet(t, v, x) == v \in there /\ Start(t, "set", v, x) /\ UNCHANGED <<cell, there>> /\ Keep
RetSet(t) == End(t, "set") /\ cell' = [cell EXCEPT ![call[t].v][t] = call[t].x] /\ UNCHANGED there /\ Keep
\* documented: a set that gets no storage ends the program
Abort(t) == call[t].o = "set" /\ call[t].ref /\ call' = [call EXCEPT ![t] = [NoCall EXCEPT !.o = "ended"]] /\ UNCHANGED <<cell, there>> /\ Keep
CallGet(t, v) == v \in there /\ Start(t, "get", v, 0) /\ UNCHANGED <<cell, there>> /\ Keep
RetGet(t, r) == End(t, "get") /\ r = cell[call[t].v][t] /\ UNCHANGED <<cell, there>> /\ Keep
RetEq(t, x, r) == End(t, "get") /\ r = (IF x = cell[call[t].v][t] THEN 1 ELSE 0) /\ UNCHANGED <<cell, there>> /\ Keep
CallAlloc(t, v) == v \in there /\ Start(t, "alloc", v, 0) /\ UNCHANGED <<cell, there>> /\ Keep
RetAlloc(t, r) == /\ End(t, "alloc") /\ (r = 0 => call[t].ref)
                  /\ (r = 1 /\ NeedKey => \E k \in DOMAIN keys : keys[k].v = call[t].v /\ keys[k].live)
                  /\ UNCHANGED <<cell, there>> /\ Keep
KeyCreate(t, k) == /\ call[t].o # "none" /\ k \notin DOMAIN keys
                   /\ keys' = Put(keys, k, [v |-> call[t].v, by |-> t, at |-> IF t = Main THEN 0 ELSE vc[t][t] + 1, live |-> TRUE])
                   /\ (IF t = Main THEN UNCHANGED hbvars ELSE Plain(t)) /\ UNCHANGED <<cell, there, call>>
KeyRefused(t) == call' = [u \in All |-> [call[u] EXCEPT !.ref = call[u].o # "none"]] /\ UNCHANGED <<cell, there, keys, hbvars>>
StoreRefused(t) == call[t].o = "set" /\ call' = [call EXCEPT ![t].ref = TRUE] /\ UNCHANGED <<cell, there, keys, hbvars>>
Ordered(t, k) == IF keys[k].by = Main \/ t = Main THEN TRUE ELSE Before(keys[k].by, keys[k].at, t)
KeyUse(t, k) == /\ k \in DOMAIN keys /\ keys[k].live /\ keys[k].v = call[t].v /\ Ordered(t, k)
                /\ UNCHANGED allvars
KeyDelete(t, k) == /\ k \in DOMAIN keys /\ keys[k].live /\ keys[k].v = call[t].v /\ Ordered(t, k)
                   /\ keys' = [keys EXCEPT ![k].live = FALSE] /\ UNCHANGED <<cell, there, call, hbvars>>
Op(t, x, k, mo) == Atomic(t, x, k, mo) /\ UNCHANGED tvars
Join_ == /\ \A t \in Threads : call[t].o \in {"none", "ended"}
         /\ UNCHANGED allvars
Finish(n) == /\ there = {} /\ n = 0 /\ (\A k \in DOMAIN keys : ~keys[k].live) /\ UNCHANGED allvars
=============================================================================
