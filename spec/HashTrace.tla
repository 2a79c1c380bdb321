------------------------------- MODULE HashTrace ------------------------------
(* Every recorded call on the real containers has to be a step of HashDict. *)
EXTENDS TraceBase, HashDict

\* Observations recorded after the call, about the state it left behind.
Alive(c) == st'[c] # "none"
Obs(e) ==
    /\ Has(e, "n") => e.n = Cardinality(DOMAIN dict'[e.c])
    /\ Has(e, "faults") => e.faults = 0
    /\ Has(e, "live") => e.live = Owned'
    /\ Has(e, "mfaults") => e.mfaults = 0
    \* A container with storage holds at least one block; one without holds none.
    /\ Has(e, "blocks") => /\ e.blocks >= Cardinality({c \in Containers : st'[c] = "ready"})
                           /\ {c \in Containers : st'[c] = "ready"} = {} => e.blocks = 0
                           \* what the containers say they use is what they hold
                           /\ e.said = e.held

Cause(e) == e.refused > 0 \/ e.over > 0

Step(e) ==
    CASE e.op = "new" -> New(e.c, e.per)
      [] e.op = "init" -> /\ Init_(e.c, e.ok, Cause(e), e.huge)
                          /\ e.huge => e.over > 0
      [] e.op = "put" -> /\ Put(e.c, e.k, e.v, e.found, e.ok, Cause(e))
                         \* the handle gives access to the entry
                         /\ e.ok => e.hlive /\ e.hk = e.k /\ e.hv = e.v
      [] e.op = "find" -> Find(e.c, e.k, e.found, e.v)
      [] e.op = "rm" -> RemoveIfExists(e.c, e.k)
      [] e.op = "rmr" -> RemoveFound(e.c, e.k, e.found)
      [] e.op = "clear" -> Clear(e.c)
      [] e.op = "density" -> Density(e.c, e.ok, Cause(e))
      [] e.op = "iter" -> e.over = 0 /\ Iterate(e.c, e.vis, Rng(e.erase))
      [] e.op = "fill" -> e.bad = 0 /\ PutRange(e.c, e.from, e.to, e.got, e.d, e.found, Cause(e))
      [] e.op = "drop" -> RemoveRange(e.c, e.from, e.to, e.step, e.found)
      [] e.op = "iterm" -> e.over = 0 /\ IterateRuns(e.c, e.runs, e.total, e.mod, e.rest)
      [] e.op = "look" -> LookRange(e.c, e.from, e.to, e.runs, e.total)
      [] e.op = "chk" -> Snapshot(e.c, e.snap)
      [] e.op = "move" -> /\ Move(e.c, e.d)
                          /\ e.nd = Cardinality(DOMAIN dict'[e.d])
      [] e.op = "pol" -> e.same /\ e.own = e.seen /\ e.cown = e.seen /\ UNCHANGED hvars
      [] e.op = "del" -> Destroy(e.c)
      [] e.op = "final" -> DestroyAll
      [] OTHER -> FALSE

TInit == TraceStart /\ HInit
TNext == \/ More /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, hvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, hvars>>
\* what a counterexample shows: printing large values would take TLC longer than the check has
Shown == [tid |-> tid, l |-> l, state |-> [c \in Containers |-> <<st[c], IF Cardinality(DOMAIN dict[c]) > 200 THEN <<"of size", Cardinality(DOMAIN dict[c])>> ELSE <<dict[c]>>>>]]
=============================================================================
