-------------------------------- MODULE LibTrace --------------------------------
(* Libraries 1..4: 3 depends on 1.  4 initialises and ends like the others.     *)
EXTENDS TraceBase, LibLife
S == INSTANCE StrOps
LibNeeds == [k \in Libs |-> IF k = 3 THEN {1} ELSE {}]
Obs(e) == /\ \A k \in Libs : /\ e.loaded[k] = (IF k \in Loaded(hold', of') THEN 1 ELSE 0)
                             \* constructors run minus destructors run
                             /\ e.inits[k] = e.loaded[k]
          /\ \A v \in Vars : e.valid[v + 1] = (IF hold'[v] = 0 THEN 0 ELSE 1)
          \* two variables refer to the same object exactly when they should
          /\ \A v, w \in Vars : e.same[v + 1][w + 1] = (IF hold'[v] # 0 /\ hold'[v] = hold'[w] THEN 1 ELSE 0)
\* the linker's message, cut to fit; nothing without a buffer
ErrOk(e) == IF e.m = 0 THEN e.after = e.before ELSE
            S!Stored(S!Copy(e.full, e.m), e.before, e.after) /\ e.full # <<>>
Defines(k, i) == i = k \/ i \in LibNeeds[k]
\* system error texts
TextOk(e) == S!Stored(S!Copy(e.full, e.m), e.before, e.after) /\ e.out
Step(e) ==
    CASE e.op = "open" -> Open(e.a, e.b) /\ e.out
      [] e.op = "fail" -> Fail(e.a) /\ TRUE = ErrOk(e) /\ e.out
      [] e.op \in {"copy", "pass"} -> Copy(e.a, e.b)
      [] e.op = "move" -> Move(e.a, e.b)
      [] e.op = "drop" -> Drop(e.a)
      \* symbol of library e.x looked up through variable e.a
      [] e.op = "lookup" -> /\ hold[e.a] # 0 /\ UNCHANGED lvars
                            /\ IF e.x # 0 /\ Defines(of[hold[e.a]], e.x) THEN e.found /\ e.res = 100 + e.x /\ e.data = 200 + e.x
                               ELSE ~e.found
      [] OTHER -> FALSE
TInit == TraceStart /\ Init0
TNext == \/ More /\ Ev.op # "text" /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ More /\ Ev.op = "text" /\ TRUE = TextOk(Ev) /\ UNCHANGED lvars /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, hold, of>>
TSpec == TInit /\ [][TNext]_<<tid, l, hold, of>>
=============================================================================
