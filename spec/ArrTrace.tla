------------------------------- MODULE ArrTrace -------------------------------
EXTENDS TraceBase, ArrVal
Cells(r) == {v \in Vars : r \in av'[v].ar}
RECURSIVE Expand(_)
Expand(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..r[3] |-> r[1] + (i - 1) * r[2]] \o Expand(SubSeq(r, 4, Len(r)))
Vals(e, v) == IF e.runs[v + 1] = <<>> THEN e.vals[v + 1] ELSE Expand(e.runs[v + 1])
Obs(e) ==
    /\ \A v \in Vars :
         /\ e.init[v + 1] = (IF av'[v].ok THEN 1 ELSE 0)
         /\ Vals(e, v) = av'[v].s
         /\ e.agree[v + 1] = 1
    \* element-wise comparison of every pair
    /\ \A v, w \in Vars : e.eq[v + 1][w + 1] = (IF av'[v].s = av'[w].s THEN 1 ELSE 0)
    /\ e.live = Total(av', Vars)
    /\ e.faults = 0
    \* every array with elements has its block in its own arena, and nobody else has one
    /\ \A r \in 0..2 : /\ e.blocks[r + 1] >= Cardinality(HasBlock(av', r))
                       /\ e.blocks[r + 1] <= Cardinality(Cells(r))
Step(e) ==
    CASE e.op = "new" -> Construct(e.a, [i \in 1..e.n |-> 0], {e.b}, e.refused > 0)
      [] e.op = "huge" -> Construct(e.a, <<>>, {e.b}, TRUE) /\ e.over + e.refused > 0
      [] e.op = "vec" -> /\ Construct(e.a, e.s, DefaultArena, e.refused > 0)
                         /\ e.after = (IF e.moved /\ e.refused = 0 THEN [i \in 1..Len(e.s) |-> -1] ELSE e.s)
      [] e.op = "ramp" -> /\ Construct(e.a, [i \in 1..e.n |-> e.x + i - 1], DefaultArena, e.refused > 0)
                          /\ e.refused = 0 => e.after = <<1>>
      [] e.op = "copyctor" -> CopyCtor(e.a, e.b, e.refused > 0)
      [] e.op = "movector" -> MoveCtor(e.a, e.b)
      [] e.op = "assign" -> Assign(e.a, e.b, e.refused > 0)
      [] e.op = "massign" -> MoveAssign(e.a, e.b)
      [] e.op = "write" -> Write(e.a, e.n, e.x)
      [] OTHER -> FALSE
TInit == TraceStart /\ Init0
TNext == \/ More /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, av>>
TSpec == TInit /\ [][TNext]_<<tid, l, av>>
\* what a counterexample shows: printing large values would take TLC longer than the check has
Shown == [tid |-> tid, l |-> l, state |-> [v \in Vars |-> IF Len(av[v].s) > 200 THEN <<av[v].ok, "of length", Len(av[v].s), av[v].ar>> ELSE av[v]]]
=============================================================================
