--------------------------------- MODULE ThrMC ---------------------------------
EXTENDS ThrLife, TLC, Json, Sequences
CONSTANTS Names
Short(n) == n # "long"
Op(o, k, n) == [o |-> o, k |-> k, n |-> n]
VARIABLE act
Next == \/ \E k \in Threads, n \in Names : New(k, n) /\ act' = Op("new", k, n)
        \/ \E k \in Threads : Refuse(k) /\ act' = Op("refuse", k, "")
        \/ \E k \in Threads : Return(k) /\ act' = Op("return", k, "")
        \/ Spoil /\ act' = Op("spoil", 0, "")
        \/ \E k \in Threads : Name(k) /\ act' = Op("name", k, "")
        \/ \E k \in Threads : Call(k) /\ act' = Op("call", k, "")
        \/ \E k \in Threads : End(k) /\ act' = Op("end", k, "")
        \/ \E k \in Threads : Drop(k) /\ act' = Op("drop", k, "")
        \/ \E k \in Threads : Join(k) /\ act' = Op("join", k, "")
Spec == Init /\ act = Op("", 0, "") /\ [][Next]_<<vars, act>>
        /\ \A k \in Threads : WF_vars(Return(k)) /\ WF_vars(Name(k)) /\ WF_vars(Call(k)) /\ WF_vars(End(k)) /\ WF_vars(Drop(k))
View == <<vars>>
\* a thread that was started gets to run, whatever its name
Runs == \A k \in Threads : pc[k] = "born" ~> runs[k] = 1
PrintEdge == PrintT("EDGE " \o ToJson([s |-> ToString(View), a |-> act', t |-> ToString(View')]))
PrintInit == act.o # "" \/ PrintT("EDGE " \o ToJson([i |-> ToString(View)]))
=============================================================================
