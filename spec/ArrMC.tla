--------------------------------- MODULE ArrMC --------------------------------
(* am-fixedarray.h with explicit memory: blk[b] is the arena a block came from
   (or 99 when free) and how many live elements it holds.  Allocations may be
   refused.  Refines ArrVal; contents are runs of one value.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vars, Arenas, Blocks, MaxLen, Xs
VARIABLES size, data, fail, pol, blk, elems, act
ivars == <<size, data, fail, pol, blk, elems>>
Free == 99
NoX == 0
Fresh == CHOOSE b \in Blocks : blk[b] = Free /\ \A c \in Blocks : blk[c] = Free => b <= c
A(o, a, b, n, x, f) == act' = [o |-> o, a |-> a, b |-> b, n |-> n, x |-> x, f |-> f]
Init == /\ size = [v \in Vars |-> 0] /\ data = [v \in Vars |-> 0] /\ fail = [v \in Vars |-> FALSE]
        /\ pol = [v \in Vars |-> 0] /\ blk = [b \in Blocks |-> Free] /\ elems = [b \in Blocks |-> <<>>]
        /\ act = [o |-> "init", a |-> 0, b |-> 0, n |-> 0, x |-> 0, f |-> FALSE]
Rep(n, x) == [i \in 1..n |-> x]
\* release v's block through v's policy (bk, el: the memory so far)
Rel(v, bk) == IF data[v] = 0 THEN bk ELSE [bk EXCEPT ![data[v]] = Free]
RelE(v, el) == IF data[v] = 0 THEN el ELSE [el EXCEPT ![data[v]] = <<>>]
\* v gets fresh memory from arena r holding s; refused or not
Make(v, s, r, refused) ==
    IF s = <<>> \/ refused
    THEN /\ size' = [size EXCEPT ![v] = 0] /\ data' = [data EXCEPT ![v] = 0]
         /\ fail' = [fail EXCEPT ![v] = refused] /\ pol' = [pol EXCEPT ![v] = r]
         /\ blk' = Rel(v, blk) /\ elems' = RelE(v, elems)
    ELSE LET b == Fresh
         IN /\ size' = [size EXCEPT ![v] = Len(s)] /\ data' = [data EXCEPT ![v] = b]
            /\ fail' = [fail EXCEPT ![v] = FALSE] /\ pol' = [pol EXCEPT ![v] = r]
            /\ blk' = [Rel(v, blk) EXCEPT ![b] = r] /\ elems' = [RelE(v, elems) EXCEPT ![b] = s]
Cont(v) == IF data[v] = 0 THEN <<>> ELSE elems[data[v]]
CanRefuse(s) == IF s = <<>> THEN {FALSE} ELSE {TRUE, FALSE}
Steal(v, w, srcpol) ==
    /\ size' = [size EXCEPT ![v] = size[w], ![w] = 0] /\ data' = [data EXCEPT ![v] = data[w], ![w] = 0]
    /\ fail' = [fail EXCEPT ![v] = fail[w], ![w] = FALSE] /\ pol' = [pol EXCEPT ![v] = pol[w]]
    /\ blk' = Rel(v, blk) /\ elems' = RelE(v, elems)
Next ==
    \/ \E v \in Vars, n \in 0..MaxLen, r \in Arenas, x \in Xs, f \in BOOLEAN :
          f \in CanRefuse(Rep(n, x)) /\ Make(v, Rep(n, x), r, f) /\ A("new", v, r, n, x, f)
    \/ \E v, w \in Vars, f \in BOOLEAN :
          v # w /\ f \in CanRefuse(Cont(w)) /\ Make(v, Cont(w), pol[w], f) /\ A("copyctor", v, w, 0, 0, f)
    \/ \E v, w \in Vars : v # w /\ Steal(v, w, pol[w]) /\ A("movector", v, w, 0, 0, FALSE)
    \/ \E v, w \in Vars, f \in BOOLEAN :
          IF v = w THEN f = FALSE /\ UNCHANGED ivars /\ A("assign", v, w, 0, 0, FALSE)
          ELSE IF size[v] = size[w] /\ ~fail[v]      \* the block is reused
          THEN /\ f = FALSE /\ A("assign", v, w, 0, 0, FALSE)
               /\ UNCHANGED <<size, data, fail, pol, blk>>
               /\ elems' = IF data[v] = 0 THEN elems ELSE [elems EXCEPT ![data[v]] = Cont(w)]
          ELSE f \in CanRefuse(Cont(w)) /\ Make(v, Cont(w), pol[v], f) /\ A("assign", v, w, 0, 0, f)
    \/ \E v, w \in Vars : IF v = w THEN UNCHANGED ivars /\ A("massign", v, w, 0, 0, FALSE)
                          ELSE Steal(v, w, pol[w]) /\ A("massign", v, w, 0, 0, FALSE)
Spec == Init /\ [][Next]_ivars
Memory == /\ \A v, w \in Vars : v # w /\ data[v] # 0 => data[v] # data[w]
          /\ \A v \in Vars : data[v] # 0 => blk[data[v]] = pol[v] /\ Len(elems[data[v]]) = size[v]
          /\ \A b \in Blocks : blk[b] # Free => \E v \in Vars : data[v] = b
          /\ \A b \in Blocks : blk[b] = Free => elems[b] = <<>>
V == INSTANCE ArrVal WITH av <- [v \in Vars |-> [ok |-> ~fail[v], s |-> Cont(v), ar |-> {}]]   \* whose block goes where is what Memory states
AbsNext ==
    \/ \E v \in Vars, n \in 0..MaxLen, r \in Arenas, x \in Xs, f \in BOOLEAN : V!Construct(v, Rep(n, x), {}, f)
    \/ \E v, w \in Vars, f \in BOOLEAN : V!CopyCtor(v, w, f) \/ V!Assign(v, w, f)
    \/ \E v, w \in Vars : V!MoveCtor(v, w) \/ V!MoveAssign(v, w)
Refines == [][AbsNext]_ivars
AbsView == [v \in Vars |-> <<fail[v], Cont(v), pol[v]>>]
Js(f) == [i \in 1..Cardinality(Vars) |-> f[i - 1]]
PrintEdge == PrintT("EDGE " \o ToJson([s |-> Js(AbsView), a |-> act', t |-> Js(AbsView)']))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> Js(AbsView)]))
=============================================================================
