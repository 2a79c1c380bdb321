------------------------------- MODULE RaiiTrace -------------------------------
EXTENDS TraceBase, RaiiVal
Live == Cardinality({o \in Slots : saves'[o].on})
Obs(e, runs) == /\ \A c \in Cells : e.cells[c + 1] = cell'[c]
                /\ \A h \in Heads : e.chains[h + 1] = chain'[h]
                /\ e.runs = runs /\ e.faults = 0
                /\ e.held = Live
HeadOf(o) == CHOOSE h \in Heads : o \in {chain[h][i] : i \in DOMAIN chain[h]}
Step(e) ==
    CASE e.op = "save" -> Save(e.a, e.b, e.x) /\ Obs(e, <<>>)
      [] e.op = "unsave" -> Unsave(e.a) /\ Obs(e, <<>>)
      [] e.op = "write" -> Write(e.a, e.x) /\ Obs(e, <<>>)
      [] e.op = "take" -> Take(e.a, e.x) /\ Obs(e, <<>>)
      [] e.op = "link" -> Link(e.a, e.b) /\ Obs(e, <<>>)
      [] e.op = "unlink" -> Unlink(e.a, HeadOf(e.a)) /\ Obs(e, <<>>)
      [] e.op = "guard" -> Guard(e.a, e.x) /\ Obs(e, <<>>)
      [] e.op = "cancel" -> Cancel(e.a) /\ Obs(e, <<>>)
      [] e.op = "move" -> MoveGuard(e.a, e.b) /\ Obs(e, <<>>)
      [] e.op = "unguard" -> Unguard(e.a) /\ Obs(e, RunBy(e.a))
      \* n nested frames of real scopes; seen: for each callback run, its frame and what it saw
      [] e.op = "frames" -> /\ UNCHANGED rvars /\ Obs(e, <<>>)
                            /\ LET F[k \in 0..e.n] == IF k = 0 THEN <<>> ELSE
                                      (IF k \in Rng(e.off) THEN <<>> ELSE <<[f |-> k, cell |-> 1000 + k, links |-> Len(chain[0]) + k]>>) \o F[k - 1]
                               IN e.seen = F[e.n]
      [] OTHER -> FALSE
TInit == TraceStart /\ Init0
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, cell, saves, chain, guard>>
TSpec == TInit /\ [][TNext]_<<tid, l, cell, saves, chain, guard>>
=============================================================================
