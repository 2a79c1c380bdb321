------------------------------- MODULE FailTrace -------------------------------
(* What a child process did up to its end has to be a behaviour of FailStop.    *)
EXTENDS TraceBase, FailStop
Shown(e, f) == /\ e.n = Cardinality(DOMAIN f) /\ Len(e.snap) = e.n
               /\ {e.snap[i][1] : i \in DOMAIN e.snap} = DOMAIN f
               /\ \A i \in DOMAIN e.snap : e.snap[i][2] = f[e.snap[i][1]]
Step(e) ==
    CASE e.op = "call" -> Call(e) /\ (e.f = "alloc" => e.id \notin blks)
      [] e.op = "refused" -> Refuse
      [] e.op = "eval" -> Eval
      [] e.op = "ret" -> Return /\ e.ok /\ ("c" \in DOMAIN pend => Shown(e, box'[pend.c]))
      \* ends by itself after the last call, or by abort and then not silently when memory was the reason
      [] e.op = "end" -> \/ e.how = "exit" /\ e.code = 0 /\ Finish
                         \/ e.how = "abort" /\ Stop /\ (pend.f # "assert" => e.said)
      [] OTHER -> FALSE
TInit == TraceStart /\ FInit
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ phase \in {"done", "stopped"} /\ UNCHANGED <<tid, l, fvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, fvars>>
=============================================================================
