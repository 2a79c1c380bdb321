--------------------------------- MODULE ArgMC ---------------------------------
(* The parser's automaton over every argument vector up to MaxLen from a token
   alphabet, in every mode.  Checks what a parser has to guarantee, and prints
   every vector for replay.                                                   *)
EXTENDS ArgGrammar, TLC, Json, ArgTokens
CONSTANTS MaxLen, Modes
AllModes == [1..4 -> BOOLEAN]
FewModes == {<<FALSE, FALSE, FALSE, FALSE>>, <<TRUE, TRUE, TRUE, TRUE>>, <<FALSE, FALSE, TRUE, TRUE>>, <<TRUE, FALSE, FALSE, FALSE>>}
VARIABLES cfg, args, S
vars == <<cfg, args, S>>
D0 == Decl[cfg.d]
M0 == [inl |-> cfg.m[1], sl |-> cfg.m[2], ex |-> cfg.m[3], pt |-> cfg.m[4], help |-> 1]
Init == /\ cfg \in [d : DOMAIN Decl, m : Modes] /\ args = <<>> /\ S = Start(D0)
Next == /\ Len(args) < MaxLen
        /\ \E t \in DOMAIN Tokens : /\ args' = Append(args, t) /\ S' = Feed(D0, M0, S, Tokens[t]) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
A0 == [i \in DOMAIN args |-> Tokens[args[i]]]
E0 == End(D0, M0, S)
R0 == E0.roles
\* every argument has exactly one role in a vector that is accepted
OneRole == (E0.st \in {"ok", "help"}) => Len(R0) = Len(args)
\* an option is not set unless something on the command line set it
NoInvention == (\A i \in DOMAIN args : ~(args[i] \in OptLike)) =>
                  \A i \in DOMAIN D0 : ~Positional(D0[i]) => E0.vals[i] = <<>>
Single == \A i \in DOMAIN D0 : ~Repeats(D0[i].k) => Len(E0.vals[i]) <= 1
ExtraRight == (E0.st = "ok") => E0.extra = SelectSeq(A0, LAMBDA a : FALSE) \o
                 [n \in 1..Len(E0.extra) |-> A0[(CHOOSE i \in DOMAIN R0 : R0[i] = "extra" /\ Cardinality({j \in 1..i : R0[j] = "extra"}) = n)]]
\* everything after the first -- that is not an option's value is passed through, unless a stop option came first
ThroughAll == (E0.st = "ok" /\ \E i \in DOMAIN R0 : R0[i] = "dashes") =>
                 LET k == CHOOSE i \in DOMAIN R0 : R0[i] = "dashes" IN
                 E0.thru = SubSeq(A0, k + 1, Len(A0)) /\ \A i \in DOMAIN R0 : R0[i] = "dashes" => i = k
Required == (E0.st = "ok" /\ \A i \in DOMAIN R0 : R0[i] # "ignored") /\ (\A i \in DOMAIN D0 : D0[i].k = "stop" => E0.vals[i] = <<>>) =>
                 \A i \in DOMAIN D0 : Positional(D0[i]) => E0.vals[i] # <<>>
Decided == E0.st \in {"ok", "help", "fail"} /\ (E0.st = "fail" <=> E0.err.k # "none")
\* a failure is final
Final == [][S.st = "fail" => S' = S]_vars
PrintCase == PrintT("EDGE " \o ToJson([d |-> cfg.d, m |-> cfg.m, a |-> args, st |-> E0.st]))
=============================================================================
