--------------------------------- MODULE FsTree ---------------------------------
(* C27: a directory tree below a root, as a set of nodes: path (sequence of
   names, physical), kind, and for links the target.  In paths that are looked
   up, 0 stands for "..", -1 for "." (and for a trailing slash).              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tree      \* function from paths to nodes
Node(k, mode, abs, to) == [k |-> k, mode |-> mode, abs |-> abs, to |-> to]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Nothing == [at |-> "nothing", p |-> <<>>]
At(p) == [at |-> "node", p |-> p]
Kind(t, p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN t THEN t[p].k ELSE "none"
Outside == [at |-> "outside", p |-> <<>>]
Unknown == [at |-> "unknown", p |-> <<>>]
\* follow: whether a link in the last place is followed too
RECURSIVE Walk(_, _, _, _, _)
Walk(t, cur, rest, follow, fuel) ==
    IF rest = <<>> THEN At(cur)
    ELSE LET h == Head(rest)  r == Tail(rest) IN
         IF Kind(t, cur) # "dir" THEN Nothing
         ELSE IF h = -1 THEN Walk(t, cur, r, follow, fuel)
         ELSE IF h = 0 THEN IF cur = <<>> THEN IF r = <<>> THEN Outside ELSE Unknown ELSE Walk(t, Front(cur), r, follow, fuel)
         ELSE LET n == Append(cur, h) IN
              CASE Kind(t, n) = "none" -> Nothing
                [] Kind(t, n) = "link" /\ (follow \/ r # <<>>) ->
                     IF fuel = 0 THEN Nothing
                     ELSE Walk(t, IF t[n].abs THEN <<>> ELSE cur, t[n].to \o r, follow, fuel - 1)
                [] OTHER -> Walk(t, n, r, follow, fuel)
Resolve(t, p) == Walk(t, <<>>, p, TRUE, 40)
KindAt(t, p) == LET w == Resolve(t, p) IN IF w.at = "node" THEN Kind(t, w.p) ELSE IF w.at = "outside" THEN "dir" ELSE IF w.at = "nothing" THEN "none" ELSE "unknown"
\* ---- changes by other means
Children(t, p) == {x \in DOMAIN t : x # <<>> /\ Front(x) = p}
Free(p) == p # <<>> /\ p \notin DOMAIN tree /\ Kind(tree, Front(p)) = "dir"
Add(p, n) == tree' = [x \in DOMAIN tree \union {p} |-> IF x = p THEN n ELSE tree[x]]
Make(p, k, mode) == Free(p) /\ Add(p, Node(k, mode, FALSE, <<>>))
Link(p, abs, to) == Free(p) /\ Add(p, Node("link", 0, abs, to))
Remove(p) == p \in DOMAIN tree /\ Children(tree, p) = {} /\ tree' = [x \in DOMAIN tree \ {p} |-> tree[x]]
\* ---- CreateDirectory: where it would be made, or nowhere
Spot(p) == IF p = <<>> THEN Nothing
           ELSE LET w == Walk(tree, <<>>, Front(p), TRUE, 40) IN
                IF w.at # "node" \/ Kind(tree, w.p) # "dir" \/ Last(p) \in {0, -1} THEN Nothing
                ELSE IF Append(w.p, Last(p)) \in DOMAIN tree THEN Nothing ELSE At(Append(w.p, Last(p)))
Create(p, mode, ok) == LET s == Spot(p) IN
    IF s.at = "node" THEN ok /\ Add(s.p, Node("dir", mode, FALSE, <<>>)) ELSE ~ok /\ UNCHANGED tree
=============================================================================
