------------------------------ MODULE AtomicRegister ---------------------------
(* C07: an AtomicRef is a register of object references: every read and write
   takes effect at one instant between its call and its return.  poss is the
   set of everything the register's state may be, given what has been seen.   *)
EXTENDS HB, FiniteSets, Sequences, TLC
VARIABLES poss,      \* set of [cur, p]: the current object, and each thread's pending operation
          held,      \* thread -> object -> references that thread holds
          alive,     \* objects that exist
          dropping,  \* threads inside a drop
          made,      \* object -> [t, n]: who made it, when
          stamp      \* object -> thread -> last access
rvars == <<poss, held, alive, dropping, made, stamp>>
allvars == <<rvars, hbvars>>
Objs == 0..15      \* 0 is null
NoOp == [k |-> "-", v |-> 0, d |-> FALSE]
Count(o) == LET RECURSIVE S(_) S(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN held[t][o] + S(T \ {t}) IN S(Threads)
NoHold == [t \in Threads |-> [o \in Objs |-> 0]]
NoStamp == [o \in Objs |-> [t \in Threads |-> 0]]
NoMade == [o \in Objs |-> [t |-> 0, n |-> 0]]

ARInit == /\ poss = {[cur |-> 0, p |-> [t \in Threads |-> NoOp]]} /\ held = NoHold /\ alive = {}
          /\ dropping = {} /\ made = NoMade /\ stamp = NoStamp /\ HBInit
Begin(first) == /\ poss' = {[cur |-> first, p |-> [t \in Threads |-> NoOp]]} /\ held' = NoHold
                /\ alive' = {first} \ {0} /\ dropping' = {} /\ made' = NoMade /\ stamp' = NoStamp /\ HBReset

\* one pending operation taking effect
Effects(s) == {LET q == s.p[t] IN
               IF q.k = "R" THEN [s EXCEPT !.p[t] = [k |-> "R", v |-> s.cur, d |-> TRUE]]
               ELSE [cur |-> q.v, p |-> [s.p EXCEPT ![t].d = TRUE]] : t \in {u \in Threads : s.p[u].k # "-" /\ ~s.p[u].d}}
RECURSIVE Closure(_)
Closure(X) == LET Y == X \cup UNION {Effects(s) : s \in X} IN IF Y = X THEN X ELSE Closure(Y)

Call(t, k, v) == /\ \A s \in poss : s.p[t].k = "-"
                 /\ poss' = Closure({[s EXCEPT !.p[t] = [k |-> k, v |-> v, d |-> FALSE]] : s \in poss})
CallRead(t) == Call(t, "R", 0) /\ UNCHANGED <<held, alive, dropping, made, stamp, hbvars>>
CallWrite(t, o) == Call(t, "W", o) /\ UNCHANGED <<held, alive, dropping, made, stamp, hbvars>>
Ret(t, ok(_)) == /\ poss' = {[s EXCEPT !.p[t] = NoOp] : s \in {x \in poss : x.p[t].d /\ ok(x.p[t])}}
                 /\ poss' # {}
RetRead(t, o) == /\ Ret(t, LAMBDA q : q.k = "R" /\ q.v = o)
                 /\ o # 0 => o \in alive
                 /\ held' = IF o = 0 THEN held ELSE [held EXCEPT ![t][o] = @ + 1]
                 /\ UNCHANGED <<alive, dropping, made, stamp, hbvars>>
RetWrite(t) == Ret(t, LAMBDA q : q.k = "W") /\ UNCHANGED <<held, alive, dropping, made, stamp, hbvars>>
Create(t, o) == /\ o \notin alive /\ alive' = alive \cup {o}
                /\ made' = [made EXCEPT ![o] = [t |-> t, n |-> vc[t][t] + 1]]
                /\ stamp' = [stamp EXCEPT ![o] = [u \in Threads |-> 0]]
                /\ Plain(t) /\ UNCHANGED <<poss, held, dropping>>
\* t uses an object it holds: it must see it complete
Touch(t, o) == /\ o \in alive /\ held[t][o] > 0 /\ Before(made[o].t, made[o].n, t)
               /\ stamp' = [stamp EXCEPT ![o][t] = vc[t][t] + 1]
               /\ Plain(t) /\ UNCHANGED <<poss, held, alive, dropping, made>>
Drop(t, o) == /\ held[t][o] > 0 /\ held' = [held EXCEPT ![t][o] = @ - 1] /\ dropping' = dropping \cup {t}
              /\ UNCHANGED <<poss, alive, made, stamp, hbvars>>
RetDrop(t) == t \in dropping /\ dropping' = dropping \ {t} /\ UNCHANGED <<poss, held, alive, made, stamp, hbvars>>
\* an object may go when nothing can refer to it any more
Unreferenced(s, o) == /\ s.cur # o
                      /\ \A t \in Threads : LET q == s.p[t] IN
                           /\ ~(q.k = "R" /\ q.d /\ q.v = o)
                           /\ ~(q.k = "W" /\ ~q.d /\ q.v = o)
Destroy(t, o) == /\ o \in alive /\ Count(o) = 0
                 /\ poss' = {s \in poss : Unreferenced(s, o)} /\ poss' # {}
                 /\ alive' = alive \ {o}
                 /\ Before(made[o].t, made[o].n, t) /\ \A u \in Threads : Before(u, stamp[o][u], t)
                 /\ Plain(t) /\ UNCHANGED <<held, dropping, made, stamp>>
\* nothing pending: exactly the referenced objects exist
Quiet(live) == /\ dropping = {} /\ alive = live
               /\ poss' = {s \in poss : alive = ({s.cur} \cup {o \in Objs : Count(o) > 0}) \ {0}} /\ poss' # {}
               /\ UNCHANGED <<held, alive, dropping, made, stamp, hbvars>>
\* the AtomicRef itself goes, then (with nothing held) no object is left; main runs alone here
EndRegister == /\ \A t \in Threads : \A s \in poss : s.p[t].k = "-"
               /\ poss' = {[s EXCEPT !.cur = 0] : s \in poss} /\ UNCHANGED <<held, alive, dropping, made, stamp, hbvars>>
DestroyAlone(o) == /\ o \in alive /\ Count(o) = 0 /\ poss' = {s \in poss : Unreferenced(s, o)} /\ poss' # {}
                   /\ alive' = alive \ {o} /\ UNCHANGED <<held, dropping, made, stamp, hbvars>>
Op(t, x, k, mo) == Atomic(t, x, k, mo) /\ UNCHANGED rvars
=============================================================================
