-------------------------------- MODULE FailMC --------------------------------
(* The design: containers over a policy that stops the program.  A table has 16
   places from its first request on and doubles when three quarters are in
   use; an array has exactly its length.  Every request can be refused.  The
   call, the requests and the return are separate steps, and refine FailStop;
   no container ever holds more than it has memory for.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tables, Arrays, MaxLen, MaxKeys
VARIABLES phase, pend, evals, box, blks, mem, want, act
Boxes == Tables \cup Arrays
F == INSTANCE FailStop
mvars == <<phase, pend, evals, box, blks, mem, want>>
Size(c) == Cardinality(DOMAIN box[c])
Rec(f, c, k, v, imp) == [f |-> f, c |-> c, k |-> k, v |-> v, impossible |-> imp, may |-> FALSE]
A(o, c, k, v, r, i) == act' = [o |-> o, c |-> c, k |-> k, v |-> v, r |-> r, i |-> i]
Init == /\ F!FInit /\ mem = [c \in Boxes |-> 0] /\ want = 0
        /\ act = [o |-> "none", c |-> 0, k |-> 0, v |-> 0, r |-> FALSE, i |-> FALSE]
\* places the call needs beyond what the container has; 0: none
Needs(c) ==
    CASE c.f = "init" -> 16
      [] c.f = "put" -> IF c.k \notin DOMAIN box[c.c] /\ Size(c.c) + 1 > (mem[c.c] * 3) \div 4 THEN 2 * mem[c.c] ELSE 0
      [] c.f = "make" -> c.k
      [] c.f = "copy" -> Size(c.k)
      [] c.f = "assign" -> IF c.c # c.k /\ Size(c.c) # Size(c.k) THEN Size(c.k) ELSE 0
      [] OTHER -> 0
Begin(c) == /\ F!Call(c) /\ want' = Needs(c) /\ UNCHANGED mem
\* refusals are decided at the request; armed: the next request would be refused
Go(o, c, k, v, imp) ==
    \E r \in BOOLEAN : Begin(Rec(o, c, k, v, imp)) /\ A(o, c, k, v, r, imp)
Calls ==
    \/ \E c \in Tables : mem[c] = 0 /\ \E imp \in BOOLEAN : Go("init", c, 0, 0, imp)
    \/ \E c \in Tables : \E k \in {1, Size(c) + 1} : mem[c] > 0 /\ k <= MaxKeys /\ Go("put", c, k, k, FALSE)
    \/ \E c \in Tables : \E k \in {Size(c), Size(c) + 1} : mem[c] > 0 /\ k > 0 /\ Go("rm", c, k, 0, FALSE)
    \/ \E c \in Arrays, n \in 0..MaxLen, v \in {5} : \E imp \in {FALSE, n = MaxLen} : Go("make", c, n, v, imp)
    \/ \E c, d \in Arrays : c # d /\ Go("copy", c, d, 0, FALSE)
    \/ \E c, d \in Arrays : Go("assign", c, d, 0, FALSE)
    \/ \E c, d \in Arrays : Go("massign", c, d, 0, FALSE)
Keep == UNCHANGED act
Request == /\ phase = "call" /\ want > 0 /\ Keep
           /\ ~pend.impossible
           /\ IF act.r
              THEN F!Refuse /\ UNCHANGED <<mem, want>>
              ELSE /\ mem' = [mem EXCEPT ![pend.c] = want] /\ want' = 0
                   /\ UNCHANGED <<phase, pend, evals, box, blks>>
Back == /\ phase = "call" /\ want = 0 /\ F!Return /\ Keep
        /\ mem' = IF pend.f = "massign" /\ pend.c # pend.k
                  THEN [mem EXCEPT ![pend.c] = mem[pend.k], ![pend.k] = 0]
                  ELSE IF pend.f \in {"assign", "copy", "make"} THEN [mem EXCEPT ![pend.c] = Cardinality(DOMAIN box'[pend.c])]
                  ELSE mem
        /\ UNCHANGED want
Halt == F!Stop /\ Keep /\ UNCHANGED <<mem, want>>
Next == Calls \/ Request \/ Back \/ Halt
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Request \/ Back \/ Halt)
\* idle or not, nothing is stored without memory for it
Room == \A c \in Boxes : (IF phase = "idle" THEN TRUE ELSE c # pend.c) => Size(c) <= mem[c]
RefusedStops == (phase = "refused") ~> (phase = "stopped")
Ends == (phase = "call") ~> (phase \in {"idle", "stopped"})
Refines == [][F!Call(pend') \/ F!Refuse \/ F!Return \/ F!Stop]_F!fvars
Held == [c \in Boxes |-> <<mem[c], Size(c)>>]
Js(f) == [c \in 1..Cardinality(Boxes) |-> f[c - 1]]
S == [p |-> phase, e |-> IF phase = "idle" THEN "" ELSE ToString(<<pend, act.r>>), h |-> Js(Held), w |-> want]
View == S
PrintEdge == PrintT("EDGE " \o ToJson([s |-> S, a |-> IF phase = "idle" THEN act' ELSE [o |-> "-"], t |-> S']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> S]))
=============================================================================
