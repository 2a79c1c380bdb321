------------------------------ MODULE TimeFormatMC ------------------------------
(* Formats that grow by a character or a conversion at a time. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxParts
O == INSTANCE TimeFormat
T0 == [year |-> 109, mon |-> 8, mday |-> 7, hour |-> 0, min |-> 5, sec |-> 59, wday |-> 1, yday |-> 249]
Parts == {<<120>>, <<32>>, <<37, 37>>} \union {<<37, c>> : c \in O!Letters}
VARIABLES f, parts, s
Init == f = <<>> /\ parts = 0 /\ s = O!Start
Next == /\ parts < MaxParts
        /\ \E p \in Parts : /\ f' = f \o p
                            /\ s' = IF Len(p) = 1 THEN O!Read(s, p[1], T0) ELSE O!Read(O!Read(s, p[1], T0), p[2], T0)
        /\ parts' = parts + 1
Spec == Init /\ [][Next]_<<f, parts, s>>
Rendered == s.mode = "text" /\ s.out = O!Render(f, T0)
Composes == \A i \in 0..Len(f) :
    LET a == SubSeq(f, 1, i)  b == SubSeq(f, i + 1, Len(f)) IN
    (i = 0 \/ a[i] # 37) /\ (i < 2 \/ a[i - 1] # 37) => O!Render(f, T0) = O!Render(a, T0) \o O!Render(b, T0)
PrintCase == PrintT("EDGE " \o ToJson([f |-> f]))
=============================================================================
