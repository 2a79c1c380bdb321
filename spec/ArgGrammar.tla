------------------------------ MODULE ArgGrammar ------------------------------
(* C15-C17: the option parser as an automaton over the argument vector.  Text is
   a sequence of character codes.  A declaration is a sequence D of records
     [k: kind, s: short form, l: long form, n: name, def: default values]
   (forms that do not exist are empty; positionals have a name), a mode M is
     [inl, sl, ex, pt: BOOLEAN, help: index of the help option or 0].
   Values are sequences of texts: none or one for single options, all of them
   for repeatable ones; numbers in canonical decimal, booleans "1" and "0".   *)
EXTENDS Integers, Sequences, FiniteSets

Dash == 45   Slash == 47   Equal == 61   Colon == 58
One == <<49>>
Zero == <<48>>
Flip(v) == IF v = One THEN Zero ELSE One

IdxOf(a, c) == LET I == {i \in DOMAIN a : a[i] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Tail2(a, n) == SubSeq(a, n + 1, Len(a))

\* ---- values -------------------------------------------------------------------------------
Space(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
RECURSIVE SkipSpace(_)
SkipSpace(a) == IF a # <<>> /\ Space(Head(a)) THEN SkipSpace(Tail(a)) ELSE a
RECURSIVE SkipZero(_)
SkipZero(a) == IF Len(a) > 1 /\ Head(a) = 48 THEN SkipZero(Tail(a)) ELSE a
\* is the digit string a at most b, same length
RECURSIVE DigLeq(_, _)
DigLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) = Head(b) THEN DigLeq(Tail(a), Tail(b)) ELSE Head(a) < Head(b)
MaxInt == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>   \* 2147483647
MinInt == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
Number(a0) ==
    LET a == SkipSpace(a0)
        neg == a # <<>> /\ Head(a) = Dash
        d == IF a # <<>> /\ Head(a) \in {Dash, 43} THEN Tail(a) ELSE a
        z == SkipZero(d)
        lim == IF neg THEN MinInt ELSE MaxInt
    IN IF d = <<>> \/ \E i \in DOMAIN d : ~Digit(d[i]) THEN [ok |-> FALSE, v |-> <<>>]
       ELSE IF Len(z) > 10 \/ (Len(z) = 10 /\ ~DigLeq(z, lim)) THEN [ok |-> FALSE, v |-> <<>>]
       ELSE [ok |-> TRUE, v |-> IF neg /\ z # Zero THEN <<Dash>> \o z ELSE z]
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowSeq(a) == [i \in DOMAIN a |-> Low(a[i])]
True_ == <<116, 114, 117, 101>>
False_ == <<102, 97, 108, 115, 101>>
\* what a value of this kind makes of a text
Read(k, a) ==
    CASE k \in {"str", "rstr"} -> [ok |-> a # <<>>, v |-> a]
      [] k \in {"int", "rint"} -> Number(a)
      [] k \in {"bool", "rbool"} -> [ok |-> LowSeq(a) \in {True_, False_}, v |-> IF LowSeq(a) = True_ THEN One ELSE Zero]
      [] OTHER -> [ok |-> FALSE, v |-> <<>>]
Repeats(k) == k \in {"rstr", "rint", "rbool"}
Positional(o) == o.n # <<>>
MayOmit(o) == o.k = "bool" /\ ~Positional(o)      \* the value may be left out
NoValue(o) == o.k \in {"en", "tog", "stop"}       \* takes no value at all
Implied(o) == IF o.k \in {"tog", "stop"} THEN Flip(o.def[1]) ELSE One

\* ---- names ---------------------------------------------------------------------------------
Least(I) == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Short(D, f) == Least({i \in DOMAIN D : D[i].s # <<>> /\ D[i].s = f})
Long(D, f) == Least({i \in DOMAIN D : D[i].l # <<>> /\ D[i].l = f})
Pretty(o) == IF o.n # <<>> THEN o.n ELSE IF o.l # <<>> THEN o.l ELSE o.s

\* ---- the automaton -------------------------------------------------------------------------
Start(D) == [st |-> "run", pend |-> 0, npos |-> 0, pass |-> FALSE, vals |-> [i \in DOMAIN D |-> <<>>],
             extra |-> <<>>, thru |-> <<>>, err |-> [k |-> "none", x |-> <<>>], roles |-> <<>>]
Fail(S, k, x) == [S EXCEPT !.st = "fail", !.pend = 0, !.err = [k |-> k, x |-> x]]
Assign(D, S, i, v) == [S EXCEPT !.vals[i] = IF Repeats(D[i].k) THEN Append(@, v) ELSE <<v>>, !.pend = 0,
                                !.st = IF D[i].k = "stop" THEN "stop" ELSE @]
Role(S, r) == [S EXCEPT !.roles = Append(@, r)]
Given(D, S, i, a) == LET r == Read(D[i].k, a) IN IF r.ok THEN Assign(D, S, i, r.v) ELSE Fail(S, "value", Pretty(D[i]))
NthPos(D, n) == LET P == SelectSeq([i \in DOMAIN D |-> i], LAMBDA i : Positional(D[i]))
                IN IF Len(P) < n THEN 0 ELSE P[n]

AsOption(D, M, S, a) ==
    LET eq == IdxOf(a, Equal)
        sep0 == IF eq > 0 THEN eq ELSE IF M.inl THEN IdxOf(a, Colon) ELSE 0
        sep1 == IF M.inl /\ sep0 > 0 /\ sep0 = Len(a) THEN 0 ELSE sep0
        key == IF sep1 > 0 THEN SubSeq(a, 1, sep1 - 1) ELSE a
        long == Len(a) > 1 /\ a[1] = Dash /\ a[2] = Dash
        byName == IF long THEN Long(D, Tail2(key, 2)) ELSE Short(D, Tail2(key, 1))
        byChar == IF ~long /\ byName = 0 /\ M.inl /\ Len(a) > 1 THEN Short(D, <<a[2]>>) ELSE 0
        o1 == IF byName > 0 THEN byName ELSE byChar
        sep == IF byChar > 0 /\ Len(key) > 2 THEN 2 ELSE sep1   \* the value follows position sep
        no == o1 = 0 /\ Len(a) >= 5 /\ SubSeq(a, 1, 5) = <<Dash, Dash, 110, 111, Dash>>
        o2 == IF no THEN LET i == Long(D, Tail2(key, 5)) IN IF i > 0 /\ D[i].k = "en" THEN i ELSE 0 ELSE 0
        i == IF o1 > 0 THEN o1 ELSE o2
        T == Role(S, "option")
    IN IF i = 0 THEN Fail(T, "unknown", a)
       ELSE IF ~Repeats(D[i].k) /\ S.vals[i] # <<>> THEN Fail(T, "again", Pretty(D[i]))
       ELSE IF NoValue(D[i]) THEN
            IF sep > 0 THEN Fail(T, "value", Pretty(D[i]))
            ELSE Assign(D, T, i, IF no THEN Zero ELSE Implied(D[i]))
       ELSE IF sep > 0 THEN Given(D, T, i, Tail2(a, sep))
       ELSE [T EXCEPT !.pend = i]

RECURSIVE Feed(_, _, _, _)
Feed(D, M, S, a) ==
    IF S.st = "fail" THEN S
    ELSE IF S.st = "stop" THEN Role(S, "ignored")
    ELSE IF S.pend > 0 THEN
        LET o == D[S.pend]
            r == Read(o.k, a)
        IN IF r.ok THEN Role(Assign(D, S, S.pend, r.v), "value")
           ELSE IF MayOmit(o) THEN Feed(D, M, Assign(D, S, S.pend, Implied(o)), a)
           ELSE Role(Fail(S, "value", Pretty(o)), "value")
    ELSE IF S.pass THEN Role([S EXCEPT !.thru = Append(@, a)], "through")
    ELSE IF M.pt /\ a = <<Dash, Dash>> THEN Role([S EXCEPT !.pass = TRUE], "dashes")
    ELSE IF a # <<>> /\ (Head(a) = Dash \/ (M.sl /\ Head(a) = Slash)) THEN AsOption(D, M, S, a)
    ELSE LET p == NthPos(D, S.npos + 1) IN
         IF p > 0 THEN Given(D, Role([S EXCEPT !.npos = @ + 1], "positional"), p, a)
         ELSE IF M.ex THEN Role([S EXCEPT !.extra = Append(@, a)], "extra")
         ELSE Fail(Role(S, "extra"), "extra", <<>>)

End(D, M, S0) ==
    LET S == IF S0.st = "run" /\ S0.pend > 0
             THEN IF MayOmit(D[S0.pend]) THEN Assign(D, S0, S0.pend, Implied(D[S0.pend]))
                  ELSE Fail(S0, "needs", Pretty(D[S0.pend]))
             ELSE S0
        missing == NthPos(D, S.npos + 1)
    IN IF S.st = "fail" THEN S
       ELSE IF S.st = "run" /\ missing > 0 THEN Fail(S, "missing", Pretty(D[missing]))
       ELSE IF M.help > 0 /\ S.vals[M.help] = <<One>> THEN [S EXCEPT !.st = "help"]
       ELSE [S EXCEPT !.st = "ok"]
RECURSIVE FeedAll(_, _, _, _, _)
FeedAll(D, M, S, args, i) == IF i > Len(args) THEN S ELSE FeedAll(D, M, Feed(D, M, S, args[i]), args, i + 1)
Parse(D, M, args) == End(D, M, FeedAll(D, M, Start(D), args, 1))
\* what reading the options gives
Value(D, S, i) == IF S.vals[i] # <<>> THEN S.vals[i] ELSE D[i].def
Values(D, S) == [i \in DOMAIN D |-> Value(D, S, i)]
=============================================================================
