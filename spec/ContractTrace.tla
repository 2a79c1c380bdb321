---------------------------- MODULE ContractTrace ----------------------------
EXTENDS TraceBase, Contracts
Step(e) ==
    CASE e.op = "kind" -> Become(e.kind, e.sub)
      [] e.op = "call" -> Call(e)
      [] e.op = "ret" -> /\ Return /\ e.ok
                         /\ kind = "rc" => e.died = (pend.f = "unref" /\ st = 1)
      [] e.op = "end" -> \/ e.how = "exit" /\ e.code = 0 /\ Finish
                         \/ e.how = "abort" /\ Stop
      [] OTHER -> FALSE
TInit == TraceStart /\ CInit
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ phase \in {"done", "stopped"} /\ UNCHANGED <<tid, l, cvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, cvars>>
=============================================================================
