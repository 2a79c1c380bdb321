-------------------------------- MODULE RaiiVal --------------------------------
(* C23: scope helpers.  cell: the locations; saves[o]: what a SaveAndSet will
   write back, where; chain[h]: the live objects linked at head h, innermost
   first; guard[o]: the obligation a ScopeGuard holds and whether it stands.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells, Slots, Heads
VARIABLES cell, saves, chain, guard
rvars == <<cell, saves, chain, guard>>
NoSave == [on |-> FALSE, c |-> 0, old |-> 0]
NoGuard == [on |-> FALSE, id |-> 0, armed |-> FALSE]
Init0 == /\ cell = [c \in Cells |-> 0] /\ saves = [o \in Slots |-> NoSave]
         /\ chain = [h \in Heads |-> <<>>] /\ guard = [o \in Slots |-> NoGuard]
Save(o, c, x) == /\ ~saves[o].on /\ saves' = [saves EXCEPT ![o] = [on |-> TRUE, c |-> c, old |-> cell[c]]]
                 /\ cell' = [cell EXCEPT ![c] = x] /\ UNCHANGED <<chain, guard>>
Unsave(o) == /\ saves[o].on /\ cell' = [cell EXCEPT ![saves[o].c] = saves[o].old]
             /\ saves' = [saves EXCEPT ![o] = NoSave] /\ UNCHANGED <<chain, guard>>
Write(c, x) == cell' = [cell EXCEPT ![c] = x] /\ UNCHANGED <<saves, chain, guard>>
\* ReturnAndVoid: the old value comes back, the default stays
Take(c, ret) == ret = cell[c] /\ Write(c, 0)
Link(o, h) == (\A g \in Heads : o \notin {chain[g][i] : i \in DOMAIN chain[g]}) /\ chain' = [chain EXCEPT ![h] = <<o>> \o @] /\ UNCHANGED <<cell, saves, guard>>
Unlink(o, h) == chain[h] # <<>> /\ Head(chain[h]) = o /\ chain' = [chain EXCEPT ![h] = Tail(@)] /\ UNCHANGED <<cell, saves, guard>>
\* guards; runs: the callbacks run by the step
Guard(o, id) == ~guard[o].on /\ guard' = [guard EXCEPT ![o] = [on |-> TRUE, id |-> id, armed |-> TRUE]] /\ UNCHANGED <<cell, saves, chain>>
Cancel(o) == guard[o].on /\ guard' = [guard EXCEPT ![o].armed = FALSE] /\ UNCHANGED <<cell, saves, chain>>
MoveGuard(o, p) == /\ guard[p].on /\ ~guard[o].on
                   /\ guard' = [guard EXCEPT ![o] = guard[p], ![p].armed = FALSE] /\ UNCHANGED <<cell, saves, chain>>
Unguard(o) == guard[o].on /\ guard' = [guard EXCEPT ![o] = NoGuard] /\ UNCHANGED <<cell, saves, chain>>
RunBy(o) == IF guard[o].on /\ guard[o].armed THEN <<guard[o].id>> ELSE <<>>
=============================================================================
