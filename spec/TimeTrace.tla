------------------------------- MODULE TimeTrace -------------------------------
(* Recorded conversions; numbers as five limbs base a million.                *)
EXTENDS TraceBase
N == INSTANCE TimeArith WITH Base <- 1000000
R == INSTANCE TimeFormat
Second == <<1000, 1000, 1000>>
SpanOk(e) ==
    LET v == N!Value(e.sec, e.nsec, Second) IN
    /\ e.dur = v
    /\ \A i \in DOMAIN e.clocks :
         LET c == e.clocks[i] IN
         /\ c.ns = N!TimesAll(c.q, c.unit)      \* a whole number of the clock's ticks
         /\ N!Truncates(v, c.unit, c.q)
EpochOk(e) == \A i \in DOMAIN e.counts : e.counts[i] = e.t
FormatOk(e) == LET x == R!Render(e.f, e.tm) IN e.out = x /\ e.out2 = x
Ok(e) == CASE e.op = "span" -> SpanOk(e) [] e.op = "epoch" -> EpochOk(e) [] e.op = "format" -> FormatOk(e) [] OTHER -> FALSE
TInit == TraceStart
TNext == \/ More /\ TRUE = Ok(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
