------------------------------- MODULE RefCount -------------------------------
(* C05: single-threaded reference counting.

   Objects are referenced by variables (RefPtr and AlreadyRefed alike: each
   holds one reference), by the `next' member (a RefPtr) of live objects, and
   by manual AddRef calls.  Every action says which references exist after it;
   Settle then removes exactly the objects whose last reference went, and what
   they alone kept alive.  A newborn object has no reference yet and lives.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Vars,     \* pointer variables
          Objs      \* object identities, positive; 0 is null
VARIABLES val,      \* val[v]: the object v refers to, or 0
          nxt,      \* nxt[o]: the object o's member refers to, or 0
          man,      \* man[o]: references held by hand
          alive,    \* objects that exist
          nb        \* of those, the newborn: never referenced so far

rvars == <<val, nxt, man, alive, nb>>

RInit == /\ val = [v \in Vars |-> 0]
         /\ nxt = [o \in Objs |-> 0]
         /\ man = [o \in Objs |-> 0]
         /\ alive = {}
         /\ nb = {}

RefsIn(V, N, M, A, o) == Cardinality({v \in Vars : V[v] = o})
                         + Cardinality({x \in A : N[x] = o}) + M[o]

\* the objects that remain of A: the greatest set which drops the unreferenced
\* ones, then what only those referred to, and so on
RECURSIVE Remains(_, _, _, _, _)
Remains(V, N, M, A, B) ==
    LET D == {o \in A \ B : RefsIn(V, N, M, A, o) = 0}
    IN IF D = {} THEN A ELSE Remains(V, N, M, A \ D, B)

\* all actions end here, with the references that exist after them
Settle(V, N, M, A, B) ==
    LET touched == {o \in A : RefsIn(V, N, M, A, o) > 0}
        B2 == B \ touched
        R == Remains(V, N, M, A, B2)
    IN /\ val' = V
       /\ alive' = R
       /\ nxt' = [o \in Objs |-> IF o \in R THEN N[o] ELSE 0]
       /\ man' = M
       /\ nb' = B2

Point(V, v, o) == [V EXCEPT ![v] = o]
Shift(V, v, w) == IF v = w THEN V ELSE [V EXCEPT ![v] = V[w], ![w] = 0]

NewRaw(o) == o \notin alive /\ Settle(val, nxt, man, alive \cup {o}, nb \cup {o})
New(v, o) == o \notin alive /\ Settle(Point(val, v, o), nxt, man, alive \cup {o}, nb)
DeleteRaw(o) == /\ o \in nb
                /\ Settle(val, nxt, man, alive \ {o}, nb \ {o})
Set(v, o) == (o = 0 \/ o \in alive) /\ Settle(Point(val, v, o), nxt, man, alive, nb)
Copy(v, w) == Set(v, val[w])                       \* also when v = w
Move(v, w) == Settle(Shift(val, v, w), nxt, man, alive, nb)
Link(v, w) == val[v] # 0 /\ Settle(val, [nxt EXCEPT ![val[v]] = val[w]], man, alive, nb)
LinkMove(v, w) == /\ val[v] # 0 /\ v # w
                  /\ Settle(Point(val, w, 0), [nxt EXCEPT ![val[v]] = val[w]], man, alive, nb)
Unlink(v) == val[v] # 0 /\ Settle(val, [nxt EXCEPT ![val[v]] = 0], man, alive, nb)
Chase(v) == val[v] # 0 /\ Set(v, nxt[val[v]])      \* v = v->next
ChaseMove(v) == LET o == val[v]                    \* v = move(v->next)
                IN o # 0 /\ IF nxt[o] = o THEN UNCHANGED rvars
                            ELSE Settle(Point(val, v, nxt[o]), [nxt EXCEPT ![o] = 0], man, alive, nb)
ChaseOver(v) == LET o == val[v]                    \* v->next = v->next->next
                IN /\ o # 0 /\ nxt[o] # 0
                   /\ Settle(val, [nxt EXCEPT ![o] = nxt[nxt[o]]], man, alive, nb)
AddRef(v) == LET o == val[v] IN o # 0 /\ Settle(val, nxt, [man EXCEPT ![o] = @ + 1], alive, nb)
Release(o) == /\ o \in alive /\ man[o] > 0
              /\ Settle(val, nxt, [man EXCEPT ![o] = @ - 1], alive, nb)
\* a reference held by hand becomes v's
Adopt(v, o) == /\ o \in alive /\ man[o] > 0
               /\ Settle(Point(val, v, o), nxt, [man EXCEPT ![o] = @ - 1], alive, nb)
\* v's reference becomes one held by hand
Detach(v) == LET o == val[v]
             IN o # 0 /\ Settle(Point(val, v, 0), nxt, [man EXCEPT ![o] = @ + 1], alive, nb)
EndAll == /\ Settle([v \in Vars |-> 0], nxt, [o \in Objs |-> 0], alive \ nb, {})

----------------------------------------------------------------------------
NoDangling == /\ \A v \in Vars : val[v] = 0 \/ val[v] \in alive
              /\ \A o \in alive : nxt[o] = 0 \/ nxt[o] \in alive
              /\ \A o \in Objs : man[o] > 0 => o \in alive
NoLeak == \A o \in alive : o \in nb \/ RefsIn(val, nxt, man, alive, o) > 0
DiedOnce == [][\A o \in alive : o \notin alive' =>
                 \/ o \in nb
                 \/ RefsIn(val', nxt', man', alive', o) = 0]_rvars
=============================================================================
