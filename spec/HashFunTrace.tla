------------------------------ MODULE HashFunTrace ------------------------------
(* Values are pairs of 16-bit halves, except that words for integers and
   addresses are four.                                                         *)
EXTENDS TraceBase
O == INSTANCE HashFun
VARIABLES stream, fast, words      \* what has been seen so far
vars == <<tid, l, stream, fast, words>>
TInit == TraceStart /\ stream = {} /\ fast = {} /\ words = {}
\* one content, in one call and in chunks
Hash(e) == /\ e.chunked = e.whole
           /\ O!May(stream, e.c, e.whole) /\ O!May(fast, e.c, e.fast)
           /\ stream' = O!See(stream, e.c, e.whole) /\ fast' = O!See(fast, e.c, e.fast)
           /\ UNCHANGED words
\* the contents that have every byte in turn at one place
Family(e) == /\ e.chunked = e.whole
             /\ Len(e.whole) = 256 /\ O!Distinct(e.whole)
             /\ Len(e.fast) = 256 /\ O!Distinct(e.fast)
             /\ UNCHANGED <<stream, fast, words>>
\* integers and addresses: w is the value, of the width of the hash function
Word(e) == /\ \A k \in words : k.w = e.w => k.h = e.h
           /\ words' = words \union {[w |-> e.w, h |-> e.h]}
           /\ UNCHANGED <<stream, fast>>
TNext == \/ More /\ Advance /\ (CASE Ev.op = "hash" -> Hash(Ev) [] Ev.op = "family" -> Family(Ev) [] Ev.op = "word" -> Word(Ev) [] OTHER -> FALSE)
         \/ AtEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
