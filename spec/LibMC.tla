--------------------------------- MODULE LibMC ---------------------------------
(* Reference-counted SharedLib objects over a linker that counts dlopen and
   dlclose per library.                                                        *)
EXTENDS LibLife, TLC, Json
CONSTANTS MaxOpen
VARIABLES rc, opens, act      \* rc[o]: references to object o; opens[l]: opens not yet closed
vars == <<hold, of, rc, opens>>
ChainNeeds == [l \in Libs |-> IF l = 2 THEN {1} ELSE {}]
A(o, a, b, x) == act' = [o |-> o, a |-> a, b |-> b, x |-> x]
Init == Init0 /\ rc = <<>> /\ opens = [l \in Libs |-> 0] /\ act = [o |-> "init", a |-> 0, b |-> 0, x |-> 0]
\* the references to objects change by what the variables gain and lose; an object whose count drops to zero closes
Count(o, h) == Cardinality({v \in Vars : h[v] = o})
Settle == /\ rc' = [o \in DOMAIN of' |-> (IF o \in DOMAIN rc THEN rc[o] ELSE 0) + Count(o, hold') - Count(o, hold)]
          /\ opens' = [l \in Libs |-> opens[l] + Cardinality({o \in DOMAIN of' : o \notin DOMAIN of /\ of'[o] = l})
                                      - Cardinality({o \in DOMAIN of : of[o] = l /\ rc[o] > 0 /\ rc'[o] = 0})]
Next == \/ \E v \in Vars, l \in Libs : Len(of) < MaxOpen /\ Open(v, l) /\ Settle /\ A("open", v, l, 0)
        \/ \E v \in Vars : Fail(v) /\ Settle /\ A("fail", v, 0, 0)
        \/ \E v, w \in Vars : Copy(v, w) /\ Settle /\ A("copy", v, w, 0)
        \/ \E v, w \in Vars : Move(v, w) /\ Settle /\ A("move", v, w, 0)
        \/ \E v \in Vars : Drop(v) /\ Settle /\ A("drop", v, 0, 0)
Spec == Init /\ [][Next]_vars
View == vars
Exact == \A l \in Libs : (l \in Loaded(hold, of)) = (opens[l] > 0 \/ \E k \in Libs : opens[k] > 0 /\ l \in Needs[k])
Counts == \A o \in DOMAIN of : rc[o] = Count(o, hold)
PrintEdge == PrintT("EDGE " \o ToJson([s |-> ToString(View), a |-> act', t |-> ToString(View')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> ToString(View)]))
=============================================================================
