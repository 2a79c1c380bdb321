------------------------------ MODULE MutexTrace ------------------------------
EXTENDS TraceBase, MutexOwn
Step(e) ==
    CASE e.op = "begin" -> Begin(e.dbg)
      [] e.op = "want" -> Want(e.t, e.m)
      [] e.op = "acq" -> Acq(e.t, e.m)
      [] e.op = "rel" -> Rel(e.t, e.m)
      [] e.op = "rel_ret" -> RelRet(e.t, e.m)
      [] e.op = "try" -> Try(e.t, e.m)
      [] e.op = "try_ret" -> TryRet(e.t, e.m, e.res)
      [] e.op = "owns" -> Owns(e.t, e.m, e.res)
      [] e.op = "at" -> UNCHANGED mvars
      [] e.op = "finish" -> Finish
      [] e.op = "schedule" -> UNCHANGED mvars
      [] OTHER -> FALSE
TInit == TraceStart /\ MUInit
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, mvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, mvars>>
=============================================================================
