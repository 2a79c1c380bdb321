----------------------------- MODULE TsCountTrace -----------------------------
EXTENDS TraceBase, TsCount
Step(e) ==
    CASE e.op = "begin" -> Begin(e.refs)
      [] e.op = "addref" -> CallAdd(e.t)
      [] e.op = "addref_ret" -> RetAdd(e.t)
      [] e.op = "release" -> CallRel(e.t)
      [] e.op = "release_ret" -> RetRel(e.t, e.res)
      [] e.op = "destroy" -> Destroy(e.t)
      [] e.op = "touch" -> Touch(e.t)
      [] e.op = "at" -> Op(e.t, e.loc, e.k, e.mo)
      [] e.op = "finish" -> Finish
      [] e.op = "schedule" -> UNCHANGED allvars
      [] OTHER -> FALSE
TInit == TraceStart /\ TCInit
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, allvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, allvars>>
=============================================================================
