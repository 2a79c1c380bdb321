------------------------------- MODULE WordsTrace -------------------------------
(* Words are recorded as bytes, least significant first.                       *)
EXTENDS TraceBase
O == INSTANCE Words
\* did the call succeed, and what is in its output afterwards (sent: what was there before)
Try(fits, exact, sent, ok, out) == ok = fits /\ out = (IF fits THEN exact ELSE sent)
PairOk(e) ==
    LET a == e.a  b == e.b  a4 == O!Low(a, 4)  b4 == O!Low(b, 4)
        s == O!AddW(256, a, b)  p == O!MulW(256, a, b)  s4 == O!AddW(256, a4, b4)
        sf == s[9] = 0  pf == \A i \in 9..16 : p[i] = 0  s4f == s4[5] = 0  p4f == O!MulFits(256, a4, b4)
    IN /\ Try(sf, O!Low(s, 8), e.sent, e.add64, e.sum64)
       /\ Try(pf, O!Low(p, 8), e.sent, e.mul64, e.prod64)
       /\ Try(s4f, O!Low(s4, 4), O!Low(e.sent, 4), e.add32, e.sum32)
       /\ e.sadd64 = sf /\ e.saddp = sf /\ e.sadd32 = s4f
       /\ e.smul64 = pf /\ e.smulp = pf /\ e.smul32 = p4f
WordOk(e) ==
    LET S == O!BitsOf(8, e.a)  T == {i \in S : i < 32} IN
    /\ S # {} => e.log2 = O!Highest(S) /\ e.left64 = O!Highest(S) /\ e.right = O!Lowest(S)
    /\ T # {} => e.left32 = O!Highest(T)
    /\ e.pow2 = O!PowerOfTwo(S)
    /\ O!AlignFits(8, e.a, e.k) => e.align = O!AlignW(8, e.a, e.k)
    /\ e.aligned = (O!LowBits(8, S, e.k) = {}) /\ e.alignedp = e.aligned /\ e.aligned32 = (O!LowBits(8, T, e.k) = {})
    /\ e.base = O!Unalign(8, e.a, e.k)
TagOk(e) ==
    LET S == O!BitsOf(8, e.p)  B == O!BitsOf(8, e.bits) IN
    /\ O!BitsOf(8, e.set) = S \union B
    /\ O!BitsOf(8, e.get) = {i \in S \union B : i < e.n}
    /\ O!BitsOf(8, e.clear) = {i \in S \union B : i >= e.n}
Ok(e) == CASE e.op = "pair" -> PairOk(e) [] e.op = "word" -> WordOk(e) [] e.op = "tag" -> TagOk(e) [] OTHER -> FALSE
TInit == TraceStart
TNext == \/ More /\ TRUE = Ok(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
