------------------------------- MODULE ArgTrace -------------------------------
EXTENDS TraceBase
G == INSTANCE ArgUsage
VARIABLES D, M, info, S, used
avars == <<D, M, info, S, used>>
Init0 == D = <<>> /\ M = [help |-> 0] /\ info = [help |-> <<>>, uline |-> <<>>, lines |-> <<>>]
         /\ S = [st |-> "new"] /\ used = FALSE
\* the values that a program can read, the parser's own help option left out
Same(e, vals) == \A i \in DOMAIN D : i # M.help => e.vals[i] = vals[i]
Outcome(e, R) ==
    /\ e.res <=> (R.st = "ok")
    /\ (R.st = "fail") <=> (e.err # <<>>)
    /\ R.st = "fail" => G!Has(e.err, R.err.x)
    /\ R.st = "ok" => Same(e, G!Values(D, R)) /\ e.extra = R.extra /\ e.thru = R.thru
    /\ e.sane /\ e.same
Begin(e) == /\ D' = e.D /\ M' = e.M /\ info' = [help |-> e.help, uline |-> e.uline, lines |-> e.lines]
            /\ S' = [st |-> "new"] /\ used' = FALSE
Fresh(e) == TRUE = Outcome(e, G!Parse(D, M, e.args)) /\ UNCHANGED avars
Parse(e) == LET R == G!Parse(D, M, e.args) IN
            /\ UNCHANGED <<D, M, info>> /\ used' = TRUE
            /\ IF ~used THEN Outcome(e, R) /\ S' = R
               ELSE S' = [st |-> IF e.res THEN "ok" ELSE "unknown"]   \* without a reset: as it comes
Reset(e) == /\ Same(e, [i \in DOMAIN D |-> D[i].def]) /\ e.extra = <<>> /\ e.thru = <<>> /\ e.err = <<>> /\ e.sane
            /\ S' = [st |-> "new"] /\ used' = FALSE /\ UNCHANGED <<D, M, info>>
Usage(e) == /\ UNCHANGED avars
            /\ TRUE = CASE S.st = "unknown" -> TRUE
                 [] S.st = "fail" /\ ~(M.help > 0 /\ G!Asked(e.args)) -> G!ErrorOk(D, info.uline, e.prog, e.text, e.err, S.err.x)
                 [] OTHER -> G!FullOk(D, info.help, info.uline, info.lines, e.prog, e.text)
Step(e) ==
    CASE e.op = "begin" -> Begin(e)
      [] e.op = "fresh" -> Fresh(e)
      [] e.op = "parse" -> Parse(e)
      [] e.op = "reset" -> Reset(e)
      [] e.op = "usage" -> Usage(e)
      [] OTHER -> FALSE
TInit == TraceStart /\ Init0
TNext == \/ More /\ Step(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, avars>>
TSpec == TInit /\ [][TNext]_<<tid, l, avars>>
=============================================================================
