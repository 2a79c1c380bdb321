------------------------------- MODULE TlsTrace -------------------------------
EXTENDS TraceBase, TlsCell
MainT == -1
Step(e) ==
    CASE e.op = "begin" -> Begin
      [] e.op = "new" -> CallNew(e.t, e.v)
      [] e.op = "new_ret" -> RetNew(e.t)
      [] e.op = "del" -> CallDel(e.t, e.v)
      [] e.op = "del_ret" -> RetDel(e.t)
      [] e.op = "set" -> CallSet(e.t, e.v, e.x)
      [] e.op = "set_ret" -> RetSet(e.t)
      [] e.op = "abort" -> Abort(e.t)
      [] e.op = "get" -> CallGet(e.t, e.v)
      [] e.op = "get_ret" -> RetGet(e.t, e.res)
      [] e.op = "eq_ret" -> RetEq(e.t, e.x, e.res)
      [] e.op = "alloc" -> CallAlloc(e.t, e.v)
      [] e.op = "alloc_ret" -> RetAlloc(e.t, e.res)
      [] e.op = "keycreate" -> KeyCreate(e.t, e.key)
      [] e.op = "keyrefused" -> KeyRefused(e.t)
      [] e.op = "storerefused" -> StoreRefused(e.t)
      [] e.op = "keyuse" -> KeyUse(e.t, e.key)
      [] e.op = "keydelete" -> KeyDelete(e.t, e.key)
      [] e.op = "at" -> Op(e.t, e.loc, e.k, e.mo)
      [] e.op = "join" -> Join_
      [] e.op = "finish" -> Finish(e.keys)
      [] e.op = "schedule" -> UNCHANGED allvars
      [] OTHER -> FALSE
TInit == TraceStart /\ TLInit
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, allvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, allvars>>
=============================================================================
