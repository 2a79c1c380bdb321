----------------------------------- MODULE HB ----------------------------------
(* Happens-before as the C++ memory model defines it, by vector clocks: every
   recorded atomic operation says which location it touched, whether it read
   or wrote, and its memory order.  Values are those of an interleaving; what
   this adds is which plain accesses are ordered.                            *)
EXTENDS Integers
CONSTANTS Threads
VARIABLES vc,      \* thread -> clock
          pa,      \* thread -> clock acquired by relaxed loads, for a later acquire fence
          pr,      \* thread -> clock at the last release fence
          lc       \* location -> clock of its last release sequence
hbvars == <<vc, pa, pr, lc>>
Zero == [u \in Threads |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(c, d) == [u \in Threads |-> Max(c[u], d[u])]
Leq(c, d) == \A u \in Threads : c[u] <= d[u]
At(x) == IF x \in DOMAIN lc THEN lc[x] ELSE Zero
SetLoc(x, c) == [y \in DOMAIN lc \cup {x} |-> IF y = x THEN c ELSE lc[y]]
Acq(mo) == mo \in {"acq", "ar"}
Relz(mo) == mo \in {"rel", "ar"}

HBInit == /\ vc = [t \in Threads |-> Zero] /\ pa = [t \in Threads |-> Zero]
          /\ pr = [t \in Threads |-> Zero] /\ lc = [x \in {} |-> Zero]
HBReset == /\ vc' = [t \in Threads |-> Zero] /\ pa' = [t \in Threads |-> Zero]
           /\ pr' = [t \in Threads |-> Zero] /\ lc' = [x \in {} |-> Zero]
Tick(c, t) == [c EXCEPT ![t] = @ + 1]

Atomic(t, x, k, mo) ==
    LET c0 == vc[t]
        m == At(x)
        reads == k \in {"load", "rmw"}
        writes == k \in {"store", "rmw"}
        c1 == IF reads /\ Acq(mo) THEN Join(c0, m) ELSE c0
        c2 == IF k = "fence" /\ Acq(mo) THEN Join(c1, pa[t]) ELSE c1
        out == IF Relz(mo) THEN c2 ELSE pr[t]
    IN /\ vc' = [vc EXCEPT ![t] = Tick(c2, t)]
       /\ pa' = [pa EXCEPT ![t] = IF reads THEN Join(@, m) ELSE @]
       /\ pr' = [pr EXCEPT ![t] = IF k = "fence" /\ Relz(mo) THEN c2 ELSE @]
       /\ lc' = IF k = "store" THEN SetLoc(x, out)
                ELSE IF k = "rmw" THEN SetLoc(x, Join(m, out))
                ELSE lc
\* a plain access by t: its time stamp is t's own component
Plain(t) == vc' = [vc EXCEPT ![t] = Tick(@, t)] /\ UNCHANGED <<pa, pr, lc>>
\* is the plain access that thread u did at time n ordered before what t does now
Before(u, n, t) == n <= (IF u = t THEN vc[t][t] + 1 ELSE vc[t][u])
=============================================================================
