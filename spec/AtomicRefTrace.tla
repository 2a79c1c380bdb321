---------------------------- MODULE AtomicRefTrace ----------------------------
EXTENDS TraceBase, AtomicRegister
Step(e) ==
    CASE e.op = "begin" -> Begin(e.first)
      [] e.op = "create" -> Create(e.t, e.o)
      [] e.op = "read" -> CallRead(e.t)
      [] e.op = "read_ret" -> RetRead(e.t, e.o)
      [] e.op = "write" -> CallWrite(e.t, e.o)
      [] e.op = "write_ret" -> RetWrite(e.t)
      [] e.op = "drop" -> Drop(e.t, e.o)
      [] e.op = "drop_ret" -> RetDrop(e.t)
      [] e.op = "touch" -> Touch(e.t, e.o) /\ e.good = 1
      [] e.op = "destroy" -> IF e.t = -1 THEN DestroyAlone(e.o) ELSE Destroy(e.t, e.o)
      [] e.op = "at" -> Op(e.t, e.loc, e.k, e.mo)
      [] e.op = "quiet" -> Quiet(Rng(e.alive))
      [] e.op = "endref" -> EndRegister
      [] e.op = "schedule" -> UNCHANGED allvars
      [] OTHER -> FALSE
TInit == TraceStart /\ ARInit
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, allvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, allvars>>
=============================================================================
