------------------------------ MODULE ContractMC ------------------------------
(* Every short history of calls on an object of each kind, to the first call
   that breaks its contract.                                                   *)
EXTENDS Contracts, Json
CONSTANTS Max
VARIABLE act
Calls(k) ==
    LET C(fs, as, bs) == {[f |-> f, a |-> a, b |-> b] : f \in fs, a \in as, b \in bs}
        N == 0..Max  Z == {0}
    IN CASE k = "arr" -> C({"set", "at", "idx"}, N, Z) \cup C({"back"}, Z, Z)
         [] k = "maybe" -> C({"set", "none", "mvout", "get", "star", "arrow"}, Z, Z)
         [] k = "fun" -> C({"set", "none", "mvout", "call"}, Z, Z)
         [] k = "pq" -> C({"push", "pop", "peek"}, Z, Z)
         [] k = "list" -> C({"append", "remove", "leave"}, 0..2, 0..1) \cup C({"drop"}, Z, 0..1)
         [] k = "tab" -> C({"add", "addtwice", "rm", "rmtwice", "see", "itsee", "iterase2"}, N, 0..1)
                         \cup C({"init"}, {0, 15, 16, 17, 24, 32, 33, 48, 64}, Z)
         [] k = "rc" -> C({"ref", "unref"}, Z, Z)
         [] k = "stack" -> C({"push", "pop"}, N, Z)
         [] k = "mutex" -> C({"lock", "unlock", "assert", "other", "otherlock"}, Z, Z)
         [] k = "aref" -> C({"aref"}, 0..7, Z)
Kinds == {"arr", "maybe", "fun", "pq", "list", "tab", "rc", "stack", "mutex", "aref"}
Subs(k) == IF k = "rc" THEN {0, 1, 2, 5, 6} ELSE IF k = "tab" THEN 0..2 ELSE {0, 1}
NoAct == [f |-> "none", a |-> 0, b |-> 0]
Bounded(k, s) == CASE k \in {"pq", "rc", "stack"} -> s <= Max [] OTHER -> TRUE
Ready == kind # "tab" \/ act # NoAct
Init == CInit /\ act = NoAct
Next == \/ \E k \in Kinds : \E b \in Subs(k) : Become(k, b) /\ act' = NoAct
        \/ kind \in Kinds /\ \E c \in Calls(kind) : Call(c) /\ act' = c
        \/ (Return \/ Stop) /\ Bounded(kind, st') /\ UNCHANGED act
Spec == Init /\ [][Next]_<<cvars, act>>
\* a contract can be kept in every state, and only a call that breaks it stops the program
Sound == phase = "stopped" => ~Pre(kind, sub, st, pend)
View == cvars
S == [k |-> kind, b |-> sub, s |-> ToString(st), p |-> phase, c |-> ToString(pend)]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> S, a |-> [f |-> IF phase = "idle" THEN act'.f ELSE "-", a |-> act'.a, b |-> act'.b, k |-> kind', sub |-> sub'], t |-> S']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> S]))
=============================================================================
