------------------------------- MODULE HelperMC -------------------------------
(* Every order of filling, zeroing, placing, writing and ending in a memory of
   a few bytes, and of the calls on a held object and on shared variables.     *)
EXTENDS Helpers, Json
CONSTANTS Part
VARIABLE act
Zeroed == {<<4, 0>>, <<8, 8>>, <<2, 6>>}  \* size, place
Types == {1, 8}
Vals == {1, 2}
Init == HInit([i \in 1..N |-> 9]) /\ act = <<"-">>
Free(off, sz) == \A s \in Slots : slots[s] = NoSlot \/ Cut(slots[s].off, slots[s].sbsize) \cap Cut(off, sz) = {}
Mem == \/ Fill([i \in 1..N |-> 8]) /\ act' = <<"fill">>
       \/ \E z \in Zeroed : Zero(z[2], z[1]) /\ act' = <<"zero", z[1], z[2]>>
       \/ \E t \in Types, s \in Slots :
            /\ Free(8 * s, 8)
            /\ Place(s, 8 * s, 8, 8 * s, t, mem) /\ act' = <<"place", s, t, 8 * s>>
       \/ \E s \in Slots : Put(s, s + 1) /\ act' = <<"put", s, s + 1>>
       \/ \E s \in Slots : slots[s] # NoSlot /\ Same /\ act' = <<"get", s>>
       \/ \E s \in Slots : Unplace(s) /\ act' = <<"unplace", s>>
Held == \/ Hold /\ act' = <<"hold">>
        \/ \E v \in Vals : held.made < 2 /\ Make(v) /\ act' = <<"make", v>>
        \/ See /\ act' = <<"see">>
        \/ Kill /\ act' = <<"kill">>
        \/ Drop /\ act' = <<"drop">>
Shared == \E w \in {0, 2}, tu \in 0..1 : \E v \in {-1} \cup Vals : Once(w, v) /\ act' = <<"once", tu, w, v>>
Next == CASE Part = "mem" -> Mem [] Part = "held" -> Held [] OTHER -> Shared
Spec == Init /\ [][Next]_<<hvars, act>>
\* what is in a placed object changes only by being written or zeroed, and no two buffers meet
Apart == \A s, t \in Slots : s # t /\ slots[s] # NoSlot /\ slots[t] # NoSlot =>
            Cut(slots[s].off, slots[s].sbsize) \cap Cut(slots[t].off, slots[t].sbsize) = {}
Inside == \A s \in Slots : slots[s] # NoSlot => Cut(slots[s].addr, slots[s].size) \subseteq Cut(slots[s].off, slots[s].sbsize)
\* objects are as many as were made and not ended: buffers make and end none
Counted == held.live <= held.made /\ held.live >= 0 /\ (held.v # -1 => held.live > 0)
\* no bytes of others change
Others == [][\A s \in Slots : (slots[s] # NoSlot /\ act'[1] = "put" /\ act'[2] # s) => Got(s) = Got(s)']_<<hvars, act>>
View == hvars
S == [m |-> mem, s |-> ToString(slots), h |-> held, o |-> once]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> S, a |-> act', t |-> S']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> S]))
=============================================================================
