-------------------------------- MODULE TsCount --------------------------------
(* C06: references to one object, counted per thread that owns them.  A call
   of AddRef needs an owned reference and adds one; a call of Release gives one
   up.  When nobody owns one, the object goes, inside one of the Releases.    *)
EXTENDS HB, FiniteSets, TLC
VARIABLES own,       \* thread -> references it may use
          pend,      \* thread -> "none", "addref" or "release": the call it is in
          dead,      \* the object is destroyed
          killer,    \* thread whose current Release destroyed it, or -1
          stamp      \* thread -> time of its last plain access to the object
cvars == <<own, pend, dead, killer, stamp>>
allvars == <<cvars, hbvars>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN f[t] + Sum(f, S \ {t})

TCInit == /\ own = [t \in Threads |-> 0] /\ pend = [t \in Threads |-> "none"] /\ dead = TRUE
          /\ killer = -1 /\ stamp = [t \in Threads |-> 0] /\ HBInit
Begin(refs) == /\ own' = [t \in Threads |-> refs[t + 1]] /\ pend' = [t \in Threads |-> "none"]
               /\ dead' = FALSE /\ killer' = -1 /\ stamp' = [t \in Threads |-> 0] /\ HBReset
CallAdd(t) == /\ pend[t] = "none" /\ own[t] > 0 /\ ~dead
              /\ own' = [own EXCEPT ![t] = @ + 1] /\ pend' = [pend EXCEPT ![t] = "addref"]
              /\ UNCHANGED <<dead, killer, stamp, hbvars>>
RetAdd(t) == pend[t] = "addref" /\ pend' = [pend EXCEPT ![t] = "none"] /\ UNCHANGED <<own, dead, killer, stamp, hbvars>>
CallRel(t) == /\ pend[t] = "none" /\ own[t] > 0 /\ ~dead
              /\ own' = [own EXCEPT ![t] = @ - 1] /\ pend' = [pend EXCEPT ![t] = "release"]
              /\ UNCHANGED <<dead, killer, stamp, hbvars>>
\* res: 1 alive, 0 destroyed, 2 the function returns nothing
RetRel(t, res) == /\ pend[t] = "release" /\ pend' = [pend EXCEPT ![t] = "none"]
                  /\ res # 2 => (res = 0 <=> killer = t)
                  \* the last call to return leaves no undestroyed object without references
                  /\ (\A u \in Threads \ {t} : pend[u] # "release") /\ Sum(own, Threads) = 0 => dead
                  /\ killer' = IF killer = t THEN -1 ELSE killer
                  /\ UNCHANGED <<own, dead, stamp, hbvars>>
Destroy(t) == /\ ~dead /\ pend[t] = "release" /\ Sum(own, Threads) = 0
              /\ \A u \in Threads : Before(u, stamp[u], t)
              /\ dead' = TRUE /\ killer' = t /\ UNCHANGED <<own, pend, stamp>> /\ Plain(t)
Touch(t) == /\ ~dead /\ own[t] > 0 /\ pend[t] = "none"
            /\ stamp' = [stamp EXCEPT ![t] = vc[t][t] + 1] /\ Plain(t)
            /\ UNCHANGED <<own, pend, dead, killer>>
Op(t, x, k, mo) == Atomic(t, x, k, mo) /\ UNCHANGED cvars
Finish == dead /\ (\A t \in Threads : pend[t] = "none" /\ own[t] = 0) /\ UNCHANGED allvars
=============================================================================
