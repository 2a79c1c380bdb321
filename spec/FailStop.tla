------------------------------- MODULE FailStop -------------------------------
(* C32: a program that uses the default allocator policy and KE_RELEASE_ASSERT.
   A call goes on until it returns or the program stops; while it goes on the
   system may refuse a request for memory.  After a refusal nothing but the
   stop is left, and nothing else (but an impossible size, or a condition that
   is false) is a reason to stop.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Boxes
VARIABLES phase,     \* "idle", "call", "refused" (in a call), "stopped", "done"
          pend,      \* the call going on
          evals,     \* how often its condition was evaluated
          box,       \* box[c]: what the container c holds, a function
          blks       \* the blocks asked for directly
fvars == <<phase, pend, evals, box, blks>>
Empty == [x \in {} |-> 0]
NoCall == [f |-> "none"]
FInit == /\ phase = "idle" /\ pend = NoCall /\ evals = 0
         /\ box = [c \in Boxes |-> Empty] /\ blks = {}

Call(c) == /\ phase = "idle"
           /\ phase' = "call" /\ pend' = c /\ evals' = 0 /\ UNCHANGED <<box, blks>>
Refuse == /\ phase = "call"
          /\ phase' = "refused" /\ UNCHANGED <<pend, evals, box, blks>>
Eval == /\ phase = "call" /\ pend.f = "assert" /\ evals = 0
        /\ evals' = 1 /\ UNCHANGED <<phase, pend, box, blks>>

Const(n, x) == [i \in 0..(n - 1) |-> x]
After(c, b) ==
    CASE c.f \in {"new", "clear", "del"} -> [b EXCEPT ![c.c] = Empty]
      [] c.f \in {"make", "vec"} -> [b EXCEPT ![c.c] = Const(c.k, c.v)]
      [] c.f = "put" -> [b EXCEPT ![c.c] = (c.k :> c.v) @@ @]
      [] c.f = "rm" -> [b EXCEPT ![c.c] = [x \in DOMAIN @ \ {c.k} |-> @[x]]]
      [] c.f \in {"copy", "assign"} -> [b EXCEPT ![c.c] = b[c.k]]
      [] c.f = "massign" /\ c.c = c.k -> b
      [] c.f \in {"move", "massign"} -> [b EXCEPT ![c.c] = b[c.k], ![c.k] = Empty]
      [] OTHER -> b
Return == /\ phase = "call"
          /\ ~pend.impossible
          /\ pend.f = "assert" => evals = 1
          /\ phase' = "idle" /\ pend' = NoCall /\ evals' = 0
          /\ box' = After(pend, box)
          /\ blks' = IF pend.f = "alloc" THEN blks \cup {pend.id}
                     ELSE IF pend.f = "free" THEN blks \ {pend.id} ELSE blks
Reason == \/ phase = "refused"
          \/ phase = "call" /\ (pend.impossible \/ pend.may)
Stop == /\ Reason
        /\ pend.f = "assert" => evals = 1
        /\ phase' = "stopped" /\ UNCHANGED <<pend, evals, box, blks>>
Finish == /\ phase = "idle"
          /\ phase' = "done" /\ UNCHANGED <<pend, evals, box, blks>>
=============================================================================
