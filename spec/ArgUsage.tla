------------------------------- MODULE ArgUsage -------------------------------
(* C17: what the usage text has to say, whatever its layout.  A text is a
   sequence of lines [n: length without trailing blanks, ind: is it indented,
   ws: words]; a word is <<itself, itself up to and including the first "=">>. *)
EXTENDS ArgGrammar, SequencesExt
W(x) == x[1]
Mandatory(o) == ~NoValue(o) /\ ~MayOmit(o)
IsShort(o, w) == o.s # <<>> /\ (W(w) = o.fs \/ W(w) = o.fs \o ",")
IsLong(o, w) == /\ o.l # <<>>
                /\ IF Mandatory(o) THEN w[2] = o.fl \o "=" /\ W(w) # w[2]
                   ELSE W(w) = o.fl
\* Eat the words of the entries, one entry after the other; the forms of an option may stand among its help.
\* es: entries [opt, o, names, help]; i: entry; p: words eaten; h: help words eaten; seen: forms eaten
Need(e) == IF e.opt THEN (IF e.o.s # <<>> THEN {"s"} ELSE {}) \cup (IF e.o.l # <<>> THEN {"l"} ELSE {}) ELSE {"n"}
RECURSIVE Eat(_, _, _, _, _, _)
Eat(es, ws, i, p, h, seen) ==
    IF i > Len(es) THEN p = Len(ws)
    ELSE LET e == es[i] IN
         IF seen = Need(e) /\ h = Len(e.help) THEN Eat(es, ws, i + 1, p, 0, {})
         ELSE IF p = Len(ws) THEN FALSE
         ELSE LET w == ws[p + 1] IN
              IF e.opt THEN
                 IF "s" \in Need(e) \ seen /\ IsShort(e.o, w) THEN Eat(es, ws, i, p + 1, h, seen \cup {"s"})
                 ELSE IF "l" \in Need(e) \ seen /\ IsLong(e.o, w) THEN Eat(es, ws, i, p + 1, h, seen \cup {"l"})
                 ELSE IF seen # {} /\ h < Len(e.help) /\ W(w) = e.help[h + 1] THEN Eat(es, ws, i, p + 1, h + 1, seen)
                 ELSE FALSE
              ELSE IF seen = {} THEN
                 IF p + Len(e.names) <= Len(ws) /\ \A k \in DOMAIN e.names : W(ws[p + k]) = e.names[k]
                 THEN Eat(es, ws, i, p + Len(e.names), h, {"n"}) ELSE FALSE
              ELSE IF W(w) = e.help[h + 1] THEN Eat(es, ws, i, p + 1, h + 1, seen) ELSE FALSE
Entries(D, lines) ==
    LET pe(o) == [opt |-> FALSE, o |-> o, names |-> o.wn, help |-> o.wh]
        oe(o) == [opt |-> TRUE, o |-> o, names |-> <<>>, help |-> o.wh]
        le(x) == [opt |-> FALSE, o |-> x, names |-> x.wn, help |-> x.wh]
        map(s, Op(_)) == FoldSeq(LAMBDA x, acc : Append(acc, Op(x)), <<>>, s)
    IN map(SelectSeq(D, LAMBDA o : Positional(o)), pe) \o map(SelectSeq(D, LAMBDA o : ~Positional(o)), oe) \o map(lines, le)
WordsIn(line) == {W(line.ws[k]) : k \in DOMAIN line.ws}
StartsUsage(line) == line.ws # <<>> /\ W(line.ws[1]) = "Usage:"
UsageLineOk(D, uline, prog, line) ==
    /\ StartsUsage(line) /\ prog \in WordsIn(line)
    /\ IF uline # <<>> THEN \A k \in DOMAIN uline : uline[k] \in WordsIn(line)
       ELSE \A i \in DOMAIN D : Positional(D[i]) => \A k \in DOMAIN D[i].wn : D[i].wn[k] \in WordsIn(line)
AllWords(ls) == FoldSeq(LAMBDA x, acc : acc \o x.ws, <<>>, ls)
FullOk(D, help, uline, lines, prog, text) ==
    LET U == {u \in DOMAIN text : StartsUsage(text[u])} IN
    /\ U # {}
    /\ LET u == CHOOSE u \in U : \A v \in U : u <= v
           head == AllWords(SubSeq(text, 1, u - 1))
           body == SelectSeq(SubSeq(text, u + 1, Len(text)), LAMBDA x : x.ind)
           es == Entries(D, lines)
           helpwords == UNION {{es[n].help[m] : m \in DOMAIN es[n].help} : n \in DOMAIN es}
       IN /\ UsageLineOk(D, uline, prog, text[u])
          /\ Len(head) = Len(help) /\ \A k \in DOMAIN help : W(head[k]) = help[k]
          /\ Eat(es, AllWords(body), 1, 0, 0, {})
          /\ \A j \in DOMAIN body :
                Cardinality({k \in DOMAIN body[j].ws : W(body[j].ws[k]) \in helpwords}) <= 1 \/ body[j].n <= 80
Has(a, b) == b = <<>> \/ \E i \in 1..(Len(a) - Len(b) + 1) : SubSeq(a, i, i + Len(b) - 1) = b
\* err: the text after "error: ", x: what it has to name
ErrorOk(D, uline, prog, text, err, x) ==
    /\ Len(text) >= 2 /\ UsageLineOk(D, uline, prog, text[1])
    /\ text[2].ws # <<>> /\ W(text[2].ws[1]) = "error:" /\ Has(err, x)
HelpArgs == {<<45, 104>>, <<45, 45, 104, 101, 108, 112>>}
Asked(args) == \E i \in DOMAIN args : args[i] \in HelpArgs
=============================================================================
