-------------------------------- MODULE FunVal --------------------------------
(* C12: Function variables as values.  A value is Empty or a callable: its
   class k, the state x captured when it was stored, and d, how many callables
   that capture a Function were stored around it.                            *)
EXTENDS Integers, FiniteSets
CONSTANTS Vars, Empty
VARIABLES fv
Inline == {"fp", "stateless", "word", "twowords", "ints"}  \* at most two words, word aligned
Counted == {"word", "twowords", "ints", "three", "big", "aligned", "odd"}     \* captures an object with a lifetime

Value(k, x) == [k |-> k, x |-> x, d |-> 0]
Init0 == fv = [v \in Vars |-> Empty]
Store(v, k, x) == fv' = [fv EXCEPT ![v] = Value(k, x)]
Null(v) == fv' = [fv EXCEPT ![v] = Empty]
Copy(v, w) == fv' = [fv EXCEPT ![v] = fv[w]]
Move(v, w) == \/ v # w /\ fv' = [fv EXCEPT ![v] = fv[w], ![w] = Empty]
              \/ v = w /\ (UNCHANGED fv \/ Null(v))
Swap(v, w) == fv' = [fv EXCEPT ![v] = fv[w], ![w] = fv[v]]
\* store in v a callable that captured a copy of w
Nest(v, w) == fv[w] # Empty /\ fv' = [fv EXCEPT ![v] = [fv[w] EXCEPT !.d = @ + 1]]
\* assign to v the Function captured inside v's own callable
Unnest(v) == fv[v] # Empty /\ fv[v].d > 0 /\ fv' = [fv EXCEPT ![v] = [fv[v] EXCEPT !.d = @ - 1]]
\* what invoking gives, for arguments a (by value), p (moved in), t (by reference)
Result(v, a, p, t) == fv[v].x + a + 2 * p + 3 * t + 100000 * fv[v].d
RECURSIVE SumOver(_, _)
Objects(val) == IF val = Empty THEN 0 ELSE val.d + (IF val.k \in Counted THEN 1 ELSE 0)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN Objects(f[v]) + SumOver(f, S \ {v})
Captured(f) == SumOver(f, Vars)
=============================================================================
