------------------------------- MODULE ListTrace ------------------------------
EXTENDS TraceBase, ListSeq

Obs(e) ==
    /\ \A L \in Lists :
         L \in up' =>
            /\ e.fwd[L] = lst'[L]
            /\ e.back[L] = Reverse(lst'[L])
            /\ e.empty[L] = (IF lst'[L] = <<>> THEN 1 ELSE 0)
            /\ e.len[L] = Len(lst'[L])
    /\ \A n \in Nodes : n \notin orphan' =>
            e.inlist[n] = (IF \E L \in Lists : n \in Set(lst'[L]) THEN 1 ELSE 0)

Step(e) ==
    CASE e.op = "append" -> Append_(e.a, e.b)
      [] e.op = "remove" -> Remove(e.a, e.b)
      [] e.op = "rmself" -> RemoveSelf(e.a)
      [] e.op = "ef" -> Erase(e.a, e.b, FALSE, e.next)
      [] e.op = "er" -> Erase(e.a, e.b, TRUE, e.next)
      [] e.op = "sweep" -> Sweep(e.a, Rng(e.set), e.back1 = 1, e.seen)
      [] e.op = "kill" -> KillList(e.a, e.clears)
      [] e.op = "newlist" -> NewList(e.a)
      [] e.op = "newnode" -> NewNode(e.a)
      [] OTHER -> FALSE

BulkOk(e) == LET rs == Runs(e.n, e.k) IN
    /\ e.full = e.n /\ e.fwd = rs /\ e.back = Down(rs)
    /\ e.len = e.n - e.n \div e.k /\ e.in = e.len /\ e.left = 0
TInit == TraceStart /\ LInit
TNext == \/ More /\ Ev.op # "bulk" /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ More /\ Ev.op = "bulk" /\ TRUE = BulkOk(Ev) /\ UNCHANGED lvars /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, lvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, lvars>>
=============================================================================
