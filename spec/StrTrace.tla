------------------------------- MODULE StrTrace -------------------------------
EXTENDS TraceBase
O == INSTANCE StrOps
CopyOk(e) == LET R == CASE e.op = "strcpy" -> O!Copy(e.src, e.m)
                        [] e.op = "strcpyn" -> O!CopyN(e.src, e.n, e.m)
                        [] e.op = "strcat" -> O!Cat(O!Upto0(e.before), e.src, e.m)
             IN e.ret = R.ret /\ O!Stored(R, e.before, e.after) /\ e.out
\* texts given by their lengths: d0 in the destination, n in the source, limits m and k
LongOk(e) == LET n == IF e.fn = "strcpyn" THEN O!Min(e.n, e.k) ELSE e.n
                 w == IF e.fn = "strcat" THEN (IF e.d0 + 1 >= e.m THEN e.d0 ELSE O!Min(e.d0 + n, e.m - 1)) ELSE O!Min(n, e.m - 1)
             IN e.len = w /\ e.ret = w /\ e.same /\ e.out
Full(e) == IF e.kind = "model"
           THEN LET a == e.a IN a.l[1] \o O!FmtS(a.s1, a.w1, a.p1, a.m1) \o a.l[2] \o O!FmtD(a.d, a.w2, a.m2, a.z2, a.g2)
                                \o a.l[3] \o <<a.c>> \o a.l[4] \o O!FmtS(a.s2, a.w3, a.p3, a.m3) \o a.l[5]
           ELSE e.full
\* Sprintf/StringPrintf: everything; a failure is an empty result
WholeOk(e) == IF e.fails THEN e.text = <<>> /\ e.len = 0
              ELSE LET f == Full(e) IN
                   IF e.fn = "chars" THEN ~e.null /\ e.text = O!Upto0(f) /\ (O!Upto0(f) = f => e.len = Len(f))
                   ELSE e.text = f /\ e.len = Len(f)
\* SafeSprintf, path::Format
BoundedOk(e) == LET f == IF e.fails THEN <<>> ELSE Full(e)
                    R == O!Copy(IF e.fn = "path" THEN O!Slashes(f) ELSE f, e.m)
                IN e.ret = R.ret /\ O!Stored(R, e.before, e.after) /\ e.out
Ok(e) == CASE e.op \in {"strcpy", "strcpyn", "strcat"} -> CopyOk(e)
           [] e.op = "whole" -> WholeOk(e)
           [] e.op = "bounded" -> BoundedOk(e)
           [] e.op = "long" -> LongOk(e)
           [] e.op = "big" -> e.len = e.want /\ e.same
           [] e.op = "split" -> /\ e.pieces = O!Split(e.s, e.sep) /\ O!JoinAll(e.pieces, e.sep) = e.s /\ e.back = e.s
           \* texts given by the lengths of their pieces, in runs of [length, how many]
           [] e.op = "lsplit" -> e.got = (IF e.size = 0 THEN <<>> ELSE e.lens) /\ e.same /\ e.back
           [] e.op = "join" -> e.text = O!JoinAll(e.pieces, e.sep)
           [] e.op = "starts" -> e.res = O!Starts(e.s, e.p)
           [] e.op = "ends" -> e.res = O!Ends(e.s, e.p)
           [] e.op = "casecmp" -> /\ (e.res = 0) = (O!Down(e.s) = O!Down(e.p)) /\ e.rev = -e.res
           [] e.op = "up" -> e.text = O!Up(e.s)
           [] e.op = "down" -> e.text = O!Down(e.s)
           [] OTHER -> FALSE
TInit == TraceStart
TNext == \/ More /\ TRUE = Ok(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
