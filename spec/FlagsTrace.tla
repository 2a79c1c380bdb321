------------------------------- MODULE FlagsTrace -------------------------------
EXTENDS TraceBase
O == INSTANCE FlagSets
VARIABLES x      \* the variables' bits
Vars == 0..2
\* every observation of both kinds of variable: Flags<E> and E
Obs(e) == \A v \in Vars :
    /\ O!SetOf(e.bits[v + 1]) = x'[v] /\ e.got[v + 1] = e.bits[v + 1] /\ e.enum[v + 1] = e.bits[v + 1]
    /\ e.bool[v + 1] = (IF x'[v] = {} THEN 0 ELSE 1) /\ e.nots[v + 1] = 1 - e.bool[v + 1] /\ e.enots[v + 1] = 1 - e.bool[v + 1]
    /\ \A w \in Vars : e.eq[v + 1][w + 1] = (IF x'[v] = x'[w] THEN 1 ELSE 0) /\ e.ne[v + 1][w + 1] = 1 - e.eq[v + 1][w + 1]
                       \* enum against plain value, in both orders
                       /\ \A k \in 1..2 : e.ceq[v + 1][2 * w + k] = e.eq[v + 1][w + 1] /\ e.cne[v + 1][2 * w + k] = e.ne[v + 1][w + 1]
Set(v, S) == x' = [x EXCEPT ![v] = S]
\* binary operators leave their operands alone
Pure(e) == LET S == x[e.v]  T == x[e.w] IN
    /\ UNCHANGED x
    /\ O!SetOf(e.por) = S \union T /\ O!SetOf(e.pplus) = S \union T /\ O!SetOf(e.pand) = S \cap T
    /\ O!SetOf(e.pxor) = O!Xor(S, T) /\ O!SetOf(e.pminus) = S \ T
    /\ O!SetOf(e.eor) = S \union T /\ O!SetOf(e.eand) = S \cap T /\ O!SetOf(e.exor) = O!Xor(S, T)
    /\ O!SetOf(e.enot) = O!Not(e.width, S)
Step(e) ==
    CASE e.op = "put" -> Set(e.v, O!SetOf(e.val))
      [] e.op \in {"or", "plus", "and", "xor", "minus", "set"} -> e.self /\ Set(e.v, O!Apply(e.op, x[e.v], x[e.w]))
      [] e.op = "not" -> Set(e.v, O!Not(e.width, x[e.v]))
      [] e.op = "pure" -> Pure(e)
      \* (v o1= w) o2= w
      [] e.op = "chain" -> Set(e.v, LET S == O!Apply(e.o1, x[e.v], x[e.w])
                                    IN O!Apply(e.o2, S, IF e.v = e.w THEN S ELSE x[e.w]))
      [] OTHER -> FALSE
\* an enum and a number of a wider type, both as they are in that type
Wide(e) == /\ UNCHANGED x
           /\ \A k \in 1..2 : e.ceq[k] = (IF e.val = e.num THEN 1 ELSE 0) /\ e.cne[k] = 1 - e.ceq[k]
TInit == TraceStart /\ x = [v \in Vars |-> {}]
TNext == \/ More /\ Ev.op = "wcmp" /\ Wide(Ev) /\ Advance
         \/ More /\ Ev.op # "wcmp" /\ Step(Ev) /\ TRUE = Obs(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, x>>
TSpec == TInit /\ [][TNext]_<<tid, l, x>>
=============================================================================
