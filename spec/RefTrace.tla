------------------------------- MODULE RefTrace -------------------------------
(* Recorded calls on RefPtr, AlreadyRefed and the Refcounted families have to
   be steps of RefCount; after every call the driver reports what every
   variable refers to, which objects are alive, and how many destructor calls
   or uses were wrong.                                                       *)
EXTENDS TraceBase, RefCount

Obs(e) ==
    /\ \A v \in Vars : v < Len(e.vals) => e.vals[v + 1] = val'[v]
    /\ Rng(e.alive) = alive'
    /\ Len(e.alive) = Cardinality(alive')
    /\ e.faults = 0
    /\ e.odd = 0          \* accessors of the variables disagreed

Step(e) ==
    CASE e.op = "new" -> New(e.a, e.b)
      [] e.op = "newraw" -> NewRaw(e.a)
      [] e.op = "delraw" -> DeleteRaw(e.a)
      [] e.op = "setraw" -> Set(e.a, e.b)
      [] e.op = "null" -> Set(e.a, 0)
      [] e.op = "copy" -> Copy(e.a, e.b)
      [] e.op = "move" -> \/ Move(e.a, e.b)
                          \* a pointer moved to itself may keep or give up its object
                          \/ e.a = e.b /\ Set(e.a, 0)
      [] e.op = "link" -> Link(e.a, e.b)
      [] e.op = "linkmove" -> LinkMove(e.a, e.b)
      [] e.op = "unlink" -> Unlink(e.a)
      [] e.op = "chase" -> Chase(e.a)
      [] e.op = "chasemove" -> ChaseMove(e.a)
      [] e.op = "chaseover" -> ChaseOver(e.a)
      [] e.op = "addref" -> AddRef(e.a)
      \* a holding of many references is one holding, however many they are
      [] e.op \in {"hold", "grasp"} -> AddRef(e.a)
      [] e.op = "loose" -> Release(e.a)
      [] e.op = "release" -> Release(e.a)
      [] e.op = "adopt" -> Adopt(e.a, e.b)
      [] e.op = "detach" -> Detach(e.a)
      [] e.op = "take" -> Move(e.a, e.b)
      [] e.op = "aassign" -> Move(e.a, e.b)
      [] e.op = "adrop" -> Set(e.a, 0)
      [] e.op = "final" -> EndAll
      [] OTHER -> FALSE

TInit == TraceStart /\ RInit
TNext == \/ More /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, rvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, rvars>>
=============================================================================
