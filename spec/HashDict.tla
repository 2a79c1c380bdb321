------------------------------- MODULE HashDict -------------------------------
(* The abstract meaning of HashTable, HashMap and HashSet: a dictionary, with
   what it owns.  Several containers, so that moving one into another is a
   step of the same system.

   C01: Put, Find, Remove, Clear, Density, Move are the only ways a dictionary
        changes, and their results are functions of it.
   C02: Iterate visits each entry once.
   C03: a Put or Init may fail only when its policy refused memory or was told
        of an overflow, and then changes nothing.
   C04: what is alive and allocated follows from the dictionaries alone.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Containers

VARIABLES st,     \* st[c]: "none", "new" (no storage yet), "ready", "moved"
          dict,   \* dict[c]: the entries, a function from keys to values
          per     \* per[c]: objects the container owns for each entry

hvars == <<st, dict, per>>

Nothing == [x \in {} |-> 0]
Keys(c) == DOMAIN dict[c]
Count(c) == Cardinality(Keys(c))

RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0
              ELSE LET c == CHOOSE x \in S : TRUE
                   IN per[c] * Count(c) + SumOver(S \ {c})
Owned == SumOver(Containers)          \* objects alive inside containers

HInit == /\ st = [c \in Containers |-> "none"]
         /\ dict = [c \in Containers |-> Nothing]
         /\ per = [c \in Containers |-> 0]

New(c, p) == /\ st[c] = "none"
             /\ st' = [st EXCEPT ![c] = "new"]
             /\ per' = [per EXCEPT ![c] = p]
             /\ UNCHANGED dict

\* cause: the policy refused memory, or was told of an overflow, in this call
Init_(c, ok, cause, huge) ==
    /\ st[c] \in {"new", "moved"}
    /\ huge => ~ok                    \* a capacity nothing can satisfy
    /\ ~ok => cause
    /\ st' = IF ok THEN [st EXCEPT ![c] = "ready"] ELSE st
    /\ UNCHANGED <<dict, per>>

\* insert a new key, or store a new value under an old one
Put(c, k, v, found, ok, cause) ==
    /\ st[c] = "ready"
    /\ found = (k \in Keys(c))
    /\ found => ok
    /\ ~ok => cause
    /\ dict' = IF ok THEN [dict EXCEPT ![c] = (k :> v) @@ @] ELSE dict
    /\ UNCHANGED <<st, per>>

\* Put the keys from .. to-1 in order, each with the value key + d; the first
\* one refused, if any, is got.
PutRange(c, from, to, got, d, found, cause) ==
    /\ st[c] = "ready"
    /\ got \in from..to
    /\ got < to => cause
    /\ found = Cardinality({k \in Keys(c) : k >= from /\ k < got})
    /\ dict' = [dict EXCEPT ![c] = [k \in DOMAIN @ \cup from..(got - 1) |->
                                     IF k >= from /\ k < got THEN k + d ELSE @[k]]]
    /\ UNCHANGED <<st, per>>

InRange(k, from, to, step) == k >= from /\ k < to /\ (k - from) % step = 0

RemoveRange(c, from, to, step, found) ==
    /\ st[c] = "ready"
    /\ found = Cardinality({k \in Keys(c) : InRange(k, from, to, step)})
    /\ dict' = [dict EXCEPT ![c] = [k \in {x \in DOMAIN @ : ~InRange(x, from, to, step)} |-> @[k]]]
    /\ UNCHANGED <<st, per>>

Find(c, k, found, v) ==
    /\ st[c] = "ready"
    /\ found = (k \in Keys(c))
    /\ found => v = dict[c][k]
    /\ UNCHANGED hvars

Without(f, K) == [x \in DOMAIN f \ K |-> f[x]]

RemoveIfExists(c, k) ==
    /\ st[c] = "ready"
    /\ dict' = [dict EXCEPT ![c] = Without(@, {k})]
    /\ UNCHANGED <<st, per>>

RemoveFound(c, k, found) ==
    /\ found = (k \in Keys(c))
    /\ RemoveIfExists(c, k)

Clear(c) ==
    /\ st[c] \in {"ready"}
    /\ dict' = [dict EXCEPT ![c] = Nothing]
    /\ UNCHANGED <<st, per>>

Density(c, ok, cause) ==              \* resizing on request changes no entry
    /\ st[c] = "ready"
    /\ ~ok => cause
    /\ UNCHANGED hvars

\* visits: the sequence of <<key, value>>; E: keys erased when visited
Iterate(c, visits, E) ==
    /\ st[c] \in {"ready", "moved", "new"}
    /\ Len(visits) = Count(c)
    /\ {visits[i][1] : i \in DOMAIN visits} = Keys(c)
    /\ \A i \in DOMAIN visits : visits[i][2] = dict[c][visits[i][1]]
    /\ dict' = [dict EXCEPT ![c] = Without(@, E)]
    /\ UNCHANGED <<st, per>>

\* Runs <<first, last, step, d>> stand for the pairs <<k, k + d>>, k going from
\* first to last by step.
RunKeys(r) == IF r[3] = 1 THEN r[1]..r[2]
              ELSE {r[1] + n * r[3] : n \in 0..((r[2] - r[1]) \div r[3])}
\* The pairs of f are those of the runs, none listed twice: total is how many
\* pairs were listed.
RunsAre(rs, total, f) ==
    /\ total = Cardinality(DOMAIN f)
    /\ UNION {RunKeys(rs[i]) : i \in DOMAIN rs} = DOMAIN f
    /\ \A i \in DOMAIN rs : \A k \in RunKeys(rs[i]) : f[k] = k + rs[i][4]

IterateRuns(c, runs, total, m, r) ==
    /\ st[c] \in {"ready", "moved", "new"}
    /\ RunsAre(runs, total, dict[c])
    /\ dict' = IF m = 0 THEN dict
               ELSE [dict EXCEPT ![c] = [k \in {x \in DOMAIN @ : x % m # r} |-> @[k]]]
    /\ UNCHANGED <<st, per>>

LookRange(c, from, to, runs, total) ==
    /\ st[c] = "ready"
    /\ LET K == {x \in Keys(c) : x >= from /\ x < to}
       IN IF K = Keys(c) THEN RunsAre(runs, total, dict[c])
          ELSE RunsAre(runs, total, [k \in K |-> dict[c][k]])
    /\ UNCHANGED hvars

\* snap: all entries of the key universe, as found one by one
Snapshot(c, snap) ==
    /\ st[c] = "ready"
    /\ Len(snap) = Count(c)
    /\ \A i \in DOMAIN snap : /\ snap[i][1] \in Keys(c)
                              /\ snap[i][2] = dict[c][snap[i][1]]
    /\ UNCHANGED hvars

Move(c, d) ==
    /\ st[c] \in {"ready", "new", "moved"}
    /\ st[d] = "none"
    /\ st' = [st EXCEPT ![d] = st[c], ![c] = "moved"]
    /\ dict' = [dict EXCEPT ![d] = dict[c], ![c] = Nothing]
    /\ per' = [per EXCEPT ![d] = per[c]]

Destroy(c) ==
    /\ st[c] # "none"
    /\ st' = [st EXCEPT ![c] = "none"]
    /\ dict' = [dict EXCEPT ![c] = Nothing]
    /\ UNCHANGED per

DestroyAll ==
    /\ st' = [c \in Containers |-> "none"]
    /\ dict' = [c \in Containers |-> Nothing]
    /\ UNCHANGED per

TypeOK == /\ \A c \in Containers : st[c] \in {"none", "new", "ready", "moved"}
          /\ \A c \in Containers : st[c] # "ready" => dict[c] = Nothing
=============================================================================
