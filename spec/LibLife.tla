-------------------------------- MODULE LibLife --------------------------------
(* C26: variables holding shared libraries.  hold[v]: the SharedLib object v
   refers to, 0 when null; of[o]: the library object o was opened for.  A
   library may need another one, which is loaded with it.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vars, Libs, Needs       \* Needs[l]: the libraries that l depends on
VARIABLES hold, of
lvars == <<hold, of>>
Init0 == hold = [v \in Vars |-> 0] /\ of = <<>>
Open(v, l) == of' = Append(of, l) /\ hold' = [hold EXCEPT ![v] = Len(of) + 1]
Fail(v) == hold' = [hold EXCEPT ![v] = 0] /\ UNCHANGED of
Copy(v, w) == hold' = [hold EXCEPT ![v] = hold[w]] /\ UNCHANGED of
Move(v, w) == IF v = w THEN UNCHANGED lvars ELSE hold' = [hold EXCEPT ![v] = hold[w], ![w] = 0] /\ UNCHANGED of
Drop(v) == hold' = [hold EXCEPT ![v] = 0] /\ UNCHANGED of
Alive(h) == {h[v] : v \in Vars} \ {0}
Held(h, f) == {f[o] : o \in Alive(h)}
Loaded(h, f) == Held(h, f) \union UNION {Needs[l] : l \in Held(h, f)}
=============================================================================
