------------------------------- MODULE FloatTrace -------------------------------
(* Recorded calls of IsNaN, IsInfinite and FloatModulo. Numbers are recorded as
   <<sign, exponent field, high and low 27 bits of the fraction>>.             *)
EXTENDS TraceBase
B == 134217728
O == INSTANCE FloatFmt WITH Base <- B
F32 == [top |-> 255, one |-> <<0, 2^23>>, mb |-> 23]
F64 == [top |-> 2047, one |-> <<2^25, 0>>, mb |-> 52]
Num(a) == [s |-> a[1], e |-> a[2], m |-> <<a[3], a[4]>>]
Fmt(e) == IF e.t = "float" THEN F32 ELSE F64
ClassOk(e) == LET x == Num(e.x) IN /\ e.nan = O!IsNaN(Fmt(e), x)
                                   /\ e.inf = O!IsInf(Fmt(e), x)
ModOk(e) == LET x == Num(e.x)  y == Num(e.y)  z == Num(e.z) IN
    IF O!ModuloNaN(Fmt(e), x, y) THEN O!IsNaN(Fmt(e), z) ELSE z = O!Modulo(Fmt(e), x, y)
Ok(e) == CASE e.op = "class" -> ClassOk(e) [] e.op = "mod" -> ModOk(e) [] OTHER -> FALSE
TInit == TraceStart
TNext == \/ More /\ TRUE = Ok(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
