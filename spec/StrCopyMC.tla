------------------------------- MODULE StrCopyMC -------------------------------
(* The copy loops of am-string.h one byte at a time: src is memory that ends
   right after what may be read, dst is memory of m bytes (after what it holds,
   for a concatenation).  Nothing outside is touched, and the result is that of
   StrOps.                                                                     *)
EXTENDS StrOps, TLC, Json
CONSTANTS MaxLen, MaxM, Alphabet
Strs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
VARIABLES fn, src, d0, m, n, i, j, buf, pc, ret
vars == <<fn, src, d0, m, n, i, j, buf, pc, ret>>
Init == /\ fn \in {"strcpy", "strcpyn", "strcat"} /\ src \in Strs /\ m \in 0..MaxM
        /\ n \in (IF fn = "strcpyn" THEN 0..MaxM ELSE {0})
        /\ d0 \in (IF fn = "strcat" THEN Strs ELSE {<<>>})
        /\ buf = [k \in 1..(IF fn = "strcat" /\ Len(d0) + 1 > m THEN Len(d0) + 1 ELSE m) |->
                    IF fn = "strcat" THEN IF k <= Len(d0) THEN d0[k] ELSE IF k = Len(d0) + 1 THEN 0 ELSE 99 ELSE 99]
        /\ i = 1 /\ j = 1 /\ pc = "start" /\ ret = 0
Fixed == UNCHANGED <<fn, src, d0, m, n>>
\* the byte at i of the source: its terminator comes after its last byte
Byte(k) == IF k <= Len(src) THEN src[k] ELSE 0
Begin == /\ pc = "start" /\ Fixed /\ UNCHANGED <<i, buf>>
         /\ IF fn # "strcat" /\ m = 0 THEN pc' = "done" /\ ret' = 0 /\ UNCHANGED j
            ELSE pc' = (IF fn = "strcat" THEN "seek" ELSE "loop") /\ UNCHANGED <<ret, j>>
Seek == /\ pc = "seek" /\ Fixed /\ UNCHANGED <<i, buf, ret>>
        /\ IF buf[j] # 0 THEN j' = j + 1 /\ UNCHANGED pc ELSE pc' = "loop" /\ UNCHANGED j
More == CASE fn = "strcpy" -> Byte(i) # 0 /\ j < m
          [] fn = "strcpyn" -> j < m /\ i <= n /\ Byte(i) # 0
          [] fn = "strcat" -> Byte(i) # 0 /\ j < m
Loop == /\ pc = "loop" /\ More /\ Fixed /\ buf' = [buf EXCEPT ![j] = Byte(i)] /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<pc, ret>>
Stop == /\ pc = "loop" /\ ~More /\ Fixed /\ buf' = [buf EXCEPT ![j] = 0] /\ ret' = j - 1 /\ pc' = "done" /\ UNCHANGED <<i, j>>
Next == Begin \/ Seek \/ Loop \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InBounds == /\ pc = "loop" => j \in DOMAIN buf /\ (More => j < m)
            /\ i <= Len(src) + 1
Result == pc = "done" =>
    LET R == CASE fn = "strcpy" -> Copy(src, m) [] fn = "strcpyn" -> CopyN(src, n, m) [] fn = "strcat" -> Cat(d0, src, m)
    IN ret = R.ret /\ (R.touch => SubSeq(buf, 1, Len(R.s) + 1) = Append(R.s, 0))
Ends_ == <>(pc = "done")
PrintCase == pc = "done" => PrintT("EDGE " \o ToJson([fn |-> fn, src |-> src, d0 |-> d0, m |-> m, n |-> n]))
=============================================================================
