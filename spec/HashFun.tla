-------------------------------- MODULE HashFun --------------------------------
(* C31: what is known of a hash function from the values seen so far. A value
   may be seen for a content (a sequence of bytes) if the same content always
   had it, and no content that differs in exactly one byte did.                *)
EXTENDS Integers, Sequences, FiniteSets
OneByteApart(a, b) == /\ Len(a) = Len(b)
                      /\ Cardinality({i \in DOMAIN a : a[i] # b[i]}) = 1
May(known, c, h) == \A k \in known : /\ k.c = c => k.h = h
                                     /\ OneByteApart(k.c, c) => k.h # h
See(known, c, h) == known \union {[c |-> c, h |-> h]}
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
=============================================================================
