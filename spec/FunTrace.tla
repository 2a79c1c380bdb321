------------------------------- MODULE FunTrace -------------------------------
EXTENDS TraceBase, FunVal
Obs(e) == /\ \A v \in Vars : e.full[v + 1] = (IF fv'[v] = Empty THEN 0 ELSE 1)
          /\ e.live = Captured(fv')
          /\ e.faults = 0
Step(e) ==
    CASE e.op = "set" -> Store(e.a, e.k, e.x) /\ (e.k \in Inline => e.heap = 0)
      [] e.op = "null" -> Null(e.a)
      [] e.op = "copy" -> Copy(e.a, e.b)
      [] e.op = "move" -> Move(e.a, e.b)
      [] e.op = "swap" -> Swap(e.a, e.b)
      [] e.op = "nest" -> Nest(e.a, e.b)
      [] e.op = "unnest" -> Unnest(e.a)
      [] e.op = "call" -> /\ fv[e.a] # Empty
                          /\ e.res = Result(e.a, e.x, e.p, e.t)
                          /\ e.ref = 1 + fv[e.a].d     \* every layer ran once
                          /\ UNCHANGED fv
      [] OTHER -> FALSE
TInit == TraceStart /\ Init0
TNext == \/ More /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, fv>>
TSpec == TInit /\ [][TNext]_<<tid, l, fv>>
=============================================================================
