-------------------------------- MODULE SeqTrace --------------------------------
(* Sequences 0..2 are vectors, 3 and 4 deques.  *)
EXTENDS TraceBase, SeqHelp
Total == LET F[v \in 0..5] == IF v = 5 THEN 0 ELSE Len(q'[v]) + F[v + 1] IN F[0]
RECURSIVE Expand(_)
Expand(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..r[3] |-> r[1] + (i - 1) * r[2]] \o Expand(SubSeq(r, 4, Len(r)))
Obs(e) == /\ \A v \in Vs : (IF e.runs[v + 1] = <<>> THEN e.q[v + 1] ELSE Expand(e.runs[v + 1])) = q'[v]
          /\ e.faults = 0 /\ (e.live = -1 \/ e.live = Total)
Step(e) ==
    CASE e.op = "push" -> Push(e.a, e.x)
      [] e.op = "ramp" -> Set(e.a, q[e.a] \o [i \in 1..e.b |-> e.x + i - 1])
      [] e.op = "pushfront" -> PushFront(e.a, e.x)
      [] e.op = "popback" -> PopBack(e.a) /\ e.x = Last(q[e.a])
      [] e.op = "popfront" -> PopFront(e.a) /\ e.x = Head(q[e.a])
      [] e.op \in {"insert", "insertmv", "emplace"} -> Insert(e.a, e.b, e.x)
      [] e.op = "insertself" -> e.x + 1 \in DOMAIN q[e.a] /\ Insert(e.a, e.b, q[e.a][e.x + 1])
      [] e.op = "remove" -> Remove(e.a, e.b)
      [] e.op = "erase" -> EraseIf(e.a, LAMBDA x : x \in Rng(e.m))
      [] e.op = "erasemod" -> EraseIf(e.a, LAMBDA x : x % e.b = e.x)
      [] e.op = "extend" -> Extend(e.a, e.b)
      [] e.op = "reserve" -> UNCHANGED q
      [] OTHER -> FALSE
TInit == TraceStart /\ Init0
TNext == \/ More /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, q>>
TSpec == TInit /\ [][TNext]_<<tid, l, q>>
\* what a counterexample shows: printing large values would take TLC longer than the check has
Shown == [tid |-> tid, l |-> l, state |-> [v \in Vs |-> IF Len(q[v]) > 200 THEN <<"of length", Len(q[v])>> ELSE q[v]]]
=============================================================================
