-------------------------------- MODULE PrioBag -------------------------------
(* C11: a priority queue as a set of distinct elements (key*1000 + serial) and
   a strict weak ordering, one of the kinds below.                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES bag, kind, m
pvars == <<bag, kind, m>>
Key(v) == v \div 1000
Higher(a, b) ==
    CASE kind = "total"   -> a < b
      [] kind = "less"    -> Key(a) < Key(b)
      [] kind = "greater" -> Key(a) > Key(b)
      [] kind = "mod"     -> Key(a) % m < Key(b) % m
      [] kind = "bucket"  -> Key(a) \div m > Key(b) \div m
      [] kind = "same"    -> FALSE
PInit == bag = {} /\ kind = "less" /\ m = 1
Start(k, mm) == bag' = {} /\ kind' = k /\ m' = mm
Insert(v) == v \notin bag /\ bag' = bag \cup {v} /\ UNCHANGED <<kind, m>>
Top(v) == v \in bag /\ \A u \in bag : ~Higher(u, v)
Pop(v) == Top(v) /\ bag' = bag \ {v} /\ UNCHANGED <<kind, m>>
\* many at once: out is taken from the top, in order, and nothing above it stays
Takes(out) ==
    LET got == {out[i] : i \in DOMAIN out}
    IN /\ got \subseteq bag /\ Cardinality(got) = Len(out)
       /\ \A i \in 1..(Len(out) - 1) : ~Higher(out[i + 1], out[i])
       /\ out # <<>> => \A u \in bag \ got : ~Higher(u, out[Len(out)])
       /\ bag' = bag \ got /\ UNCHANGED <<kind, m>>
\* the elements base*1000, .., (base+n-1)*1000 in any order
Fill(base, n) == LET new == {1000 * i : i \in base..(base + n - 1)}
                 IN new \cap bag = {} /\ bag' = bag \cup new /\ UNCHANGED <<kind, m>>
=============================================================================
