------------------------------- MODULE Contracts -------------------------------
(* C34: what each call asks of its caller, for an object of a kind whose state
   is st.  A call that gets what it asks for returns and changes st as Post
   says; one that does not stops the program.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES kind, sub, st, phase, pend
cvars == <<kind, sub, st, phase, pend>>
None == [f |-> "none"]
Start(k) == CASE k \in {"arr", "maybe", "fun", "pq", "rc"} -> 0
              [] k = "list" -> <<2, 2, 2>>       \* per node: in list 0, 1, or 2: none
              [] k = "tab" -> {}
              [] k = "stack" -> 0
              [] k = "mutex" -> FALSE
              [] OTHER -> 0
\* the text after the dashes that are not part of a name
Dash == 45
Strip1(s) == IF s # <<>> /\ s[1] = Dash THEN SubSeq(s, 2, Len(s)) ELSE s
Strip2(s) == IF Len(s) >= 2 /\ s[1] = Dash /\ s[2] = Dash THEN SubSeq(s, 3, Len(s)) ELSE s
Named(s) == s # <<>> /\ s[1] # Dash
PowerOfTwo(n) == \E i \in 0..30 : n = 2 ^ i
Pre(k, sb, s, c) ==
    CASE k = "arr" -> (CASE c.f = "set" -> TRUE [] c.f = "back" -> s > 0 [] OTHER -> c.a < s)
      [] k \in {"maybe", "fun"} -> (c.f \in {"set", "none"} \/ s = 1)
      [] k = "pq" -> (c.f = "push" \/ s > 0)
      [] k = "list" -> (CASE c.f = "append" -> s[c.a + 1] = 2
                          [] c.f = "remove" -> s[c.a + 1] = c.b
                          [] c.f = "leave" -> s[c.a + 1] # 2
                          [] OTHER -> TRUE)
      [] k = "tab" -> (CASE c.f = "init" -> c.a < 16 \/ PowerOfTwo(c.a)
                         [] c.f = "add" -> c.a \notin s
                         [] c.f \in {"rm", "see"} -> c.a \in s
                         [] c.f \in {"itsee", "iterase"} -> c.a < Cardinality(s)
                         [] OTHER -> FALSE)        \* the same entry added or removed twice
      [] k = "rc" -> IF c.f = "ref" THEN s >= 0
                     ELSE s > 0 /\ ~(sb >= 4 /\ s = 1)   \* sub 4 and up: the destructor revives its object
      [] k = "stack" -> (c.f = "push" \/ c.a = s - 1)
      [] k = "aref" -> c.a = 0
      [] k = "mutex" -> (CASE c.f = "assert" -> s [] c.f = "other" -> FALSE [] OTHER -> TRUE)
      [] k = "bits" -> IF c.f \in {"log2", "left32", "left64", "right"} THEN Len(c.bits) > 0 ELSE Len(c.bits) = 1
      [] k = "text" -> c.t # <<>>
      [] k = "option" -> /\ IF c.nn THEN ~c.sn \/ ~c.ln ELSE c.sn /\ c.ln
                         /\ c.sn \/ Named(Strip1(c.s))
                         /\ c.ln \/ Named(Strip2(c.l))
      [] OTHER -> FALSE
Post(k, s, c) ==
    CASE k = "arr" -> IF c.f = "set" THEN c.a ELSE s
      [] k \in {"maybe", "fun"} -> IF c.f = "set" THEN 1 ELSE IF c.f \in {"none", "mvout"} THEN 0 ELSE s
      [] k = "pq" -> IF c.f = "push" THEN s + 1 ELSE IF c.f = "pop" THEN s - 1 ELSE s
      [] k = "list" -> (CASE c.f = "append" -> [s EXCEPT ![c.a + 1] = c.b]
                          [] c.f \in {"remove", "leave"} -> [s EXCEPT ![c.a + 1] = 2]
                          [] OTHER -> [i \in DOMAIN s |-> IF s[i] = c.b THEN 2 ELSE s[i]])
      [] k = "tab" -> (CASE c.f = "init" -> {} [] c.f = "add" -> s \cup {c.a} [] c.f = "rm" -> s \ {c.a} [] OTHER -> s)
      [] k = "rc" -> IF c.f = "ref" THEN s + 1 ELSE IF s = 1 THEN -1 ELSE s - 1
      [] k = "stack" -> IF c.f = "push" THEN s + 1 ELSE s - 1
      [] k = "mutex" -> IF c.f = "lock" THEN TRUE ELSE IF c.f = "unlock" THEN FALSE ELSE s
      [] OTHER -> s
\* calls that are not to be made even though nothing watches for them
Never(k, sb, s, c) ==
    \/ k = "maybe" /\ c.f = "mvout" /\ s = 0
    \/ k = "fun" /\ c.f = "mvout" /\ s = 0
    \/ k = "list" /\ ((c.f = "remove" /\ s[c.a + 1] # c.b) \/ (c.f = "leave" /\ s[c.a + 1] = 2))
    \/ k = "rc" /\ (s < 0 \/ (c.f = "unref" /\ s = 0 /\ sb % 4 = 2))
    \/ k = "tab" /\ c.f = "itsee" /\ c.a >= Cardinality(s)
    \/ k = "stack" /\ c.f = "pop" /\ c.a >= s
    \/ k = "mutex" /\ ((c.f \in {"lock", "otherlock"} /\ s) \/ (c.f = "unlock" /\ ~s))
CInit == kind = "none" /\ sub = 0 /\ st = 0 /\ phase = "idle" /\ pend = None
Become(k, sb) == /\ phase = "idle" /\ kind = "none" /\ kind' = k /\ sub' = sb /\ st' = Start(k)
                 /\ UNCHANGED <<phase, pend>>
Call(c) == /\ phase = "idle" /\ ~Never(kind, sub, st, c)
           /\ phase' = "call" /\ pend' = c /\ UNCHANGED <<kind, sub, st>>
Return == /\ phase = "call" /\ Pre(kind, sub, st, pend)
          /\ phase' = "idle" /\ pend' = None /\ st' = Post(kind, st, pend) /\ UNCHANGED <<kind, sub>>
Stop == /\ phase = "call" /\ ~Pre(kind, sub, st, pend)
        /\ phase' = "stopped" /\ UNCHANGED <<kind, sub, st, pend>>
Finish == /\ phase = "idle" /\ phase' = "done" /\ UNCHANGED <<kind, sub, st, pend>>
=============================================================================
