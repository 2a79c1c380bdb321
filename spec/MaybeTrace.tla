------------------------------ MODULE MaybeTrace ------------------------------
EXTENDS TraceBase, MaybeVal
Obs(e) == /\ \A v \in Vars :
               /\ e.valid[v + 1] = (IF mv'[v] = 0 THEN 0 ELSE 1)
               /\ e.cast[v + 1] = e.valid[v + 1]
               \* get, * and ->, from const and non-const, all give the value (0: not valid)
               /\ \A i \in 1..6 : e.vals[v + 1][i] = mv'[v]
          /\ e.live = Cardinality({v \in Vars : mv'[v] # 0})
          /\ e.faults = 0
          /\ e.misaligned = 0
Step(e) ==
    CASE e.op = "put" -> Put(e.a, e.x)
      [] e.op = "clear" -> Clear(e.a)
      [] e.op = "copy" -> Copy(e.a, e.b)
      [] e.op = "move" -> Move(e.a, e.b)
      [] e.op = "swap" -> Swap(e.a, e.b)
      [] e.op = "write" -> Write(e.a, e.x)
      [] e.op \in {"putf", "copyf", "movef"} ->
           IF e.threw = 1 THEN Failed(e.a)
           ELSE (e.op = "putf" /\ Put(e.a, e.x)) \/ (e.op = "copyf" /\ Copy(e.a, e.b)) \/ (e.op = "movef" /\ Move(e.a, e.b))
      [] OTHER -> FALSE
TInit == TraceStart /\ Init0
TNext == \/ More /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, mv>>
TSpec == TInit /\ [][TNext]_<<tid, l, mv>>
=============================================================================
