-------------------------------- MODULE ThrTrace --------------------------------
(* Recorded histories of NewThread. "born" is the moment the operating system
   has the thread, "return" the end of the creating call; between the two (and
   after) threads are let into their callables ("start") and out ("end").      *)
EXTENDS TraceBase, ThrLife
VARIABLES want      \* per thread: the arguments given
tvars == <<tid, l, vars, want>>
Takes(n) == n # Nothing /\ (~n.fail /\ Len(n.name) <= 15)
Both(k) ==          \* Name and then Call
    /\ pc[k] = "born"
    /\ pc' = [pc EXCEPT ![k] = "running"]
    /\ shown' = [shown EXCEPT ![k] = IF Takes(clo[k]) THEN clo[k] ELSE @]
    /\ runs' = [runs EXCEPT ![k] = @ + 1]
    /\ UNCHANGED <<back, buf, clo, asked>>
Leave(k) ==         \* End and then Drop
    /\ pc[k] = "running"
    /\ pc' = [pc EXCEPT ![k] = "over"]
    /\ clo' = [clo EXCEPT ![k] = Nothing]
    /\ UNCHANGED <<back, buf, shown, runs, asked>>
Step(e) ==
    CASE e.op = "born" -> New(e.k, [name |-> e.name, fail |-> e.fail]) /\ want' = [want EXCEPT ![e.k] = e.args]
      [] e.op = "refuse" -> Refuse(e.k) /\ UNCHANGED want
      [] e.op = "return" -> Return(e.k) /\ UNCHANGED want
      [] e.op = "spoil" -> Spoil /\ UNCHANGED want
      [] e.op = "start" -> Both(e.k) /\ UNCHANGED want
      [] e.op = "end" -> Leave(e.k) /\ UNCHANGED want
      [] e.op = "join" -> Join(e.k) /\ UNCHANGED want
      \* the creator renames a running thread
      [] e.op = "rename" -> /\ pc[e.k] = "running"
                            /\ shown' = [shown EXCEPT ![e.k] = IF Takes([name |-> e.name, fail |-> FALSE]) THEN [name |-> e.name, fail |-> FALSE] ELSE @]
                            /\ UNCHANGED <<pc, back, buf, clo, runs, asked, want>>
      [] e.op = "storm" -> UNCHANGED <<vars, want>>
      [] OTHER -> FALSE
\* what is seen of thread k after the step
Seen(x, k) ==
    /\ x.runs = runs'[k]
    /\ runs'[k] = 1 => x.args = want'[k] /\ x.elsewhere
    /\ pc'[k] = "running" /\ shown'[k] # Creators => x.name = shown'[k].name
    /\ pc'[k] \in {"joined", "refused", "none"} => x.fns = 0 /\ x.objs = 0
    /\ pc'[k] \in {"born", "running"} => x.fns >= x.hasfn /\ x.objs >= x.hasobj
    /\ x.joinable = (back'[k] /\ pc'[k] \in {"born", "running", "over"})
\* threads that run freely: each runs once with its arguments under its name, and leaves nothing
Free(e) == \A i \in DOMAIN e.th : LET x == e.th[i] IN
    /\ x.runs = 1 /\ x.args = x.want /\ x.elsewhere /\ x.fns = 0 /\ x.objs = 0
    /\ Len(x.asked) <= 15 => x.name = x.asked
Obs(e) == IF e.op = "storm" THEN Free(e) ELSE (e.me = "creator" /\ \A k \in Threads : Seen(e.th[k], k))
TInit == TraceStart /\ Init /\ want = [k \in Threads |-> <<>>]
TNext == \/ More /\ Step(Ev) /\ TRUE = Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
