------------------------------- MODULE PrioTrace ------------------------------
EXTENDS TraceBase, PrioBag
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o Flat(Tail(ss))
Obs(e) == /\ e.live = Cardinality(bag')
          /\ e.faults = 0
          /\ e.empty = (bag' = {})
Step(e) ==
    CASE e.op = "start" -> Start(e.kind, e.m)
      [] e.op = "add" -> Insert(e.v)
      [] e.op = "pop" -> Pop(e.v)
      [] e.op = "peek" -> Top(e.v) /\ UNCHANGED pvars
      [] e.op = "move" -> e.oldempty /\ UNCHANGED pvars
      [] e.op = "drain" -> Takes(e.out) /\ bag' = {}
      [] e.op = "fill" -> Fill(e.base, e.n)
      \* [first, step, count]
      [] e.op = "take" -> e.whole /\ LET s == Flat([i \in DOMAIN e.runs |-> [j \in 1..e.runs[i][3] |-> e.runs[i][1] + (j - 1) * e.runs[i][2]]])
                                    IN Len(s) = (IF e.k < Cardinality(bag) THEN e.k ELSE Cardinality(bag)) /\ Takes(s)
      \* so many that only the order they come out in is looked at
      [] e.op = "sort" -> /\ e.whole /\ bag = {} /\ UNCHANGED pvars
                          /\ LET s == Flat([i \in DOMAIN e.runs |-> [j \in 1..e.runs[i][3] |-> e.runs[i][1] + (j - 1) * e.runs[i][2]]])
                             IN Len(s) = e.n /\ \A i \in 1..e.n : s[i] = 1000 * (IF kind = "greater" THEN e.n - i ELSE i - 1)
      [] OTHER -> FALSE
TInit == TraceStart /\ PInit
TNext == \/ More /\ Step(Ev) /\ Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, pvars>>
TSpec == TInit /\ [][TNext]_<<tid, l, pvars>>
\* what a counterexample shows: printing large values would take TLC longer than the check has
Shown == [tid |-> tid, l |-> l, state |-> <<kind, m, IF Cardinality(bag) > 200 THEN {-Cardinality(bag)} ELSE bag>>]
=============================================================================
