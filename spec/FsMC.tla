---------------------------------- MODULE FsMC ----------------------------------
EXTENDS FsTree, TLC, Json
CONSTANTS Names, Rich
VARIABLES act
Ps == {<<a>> : a \in Names} \union {<<a, b>> : a, b \in Names}
Tos == {<<>>} \union {<<a>> : a \in Names} \union (IF Rich THEN {<<a, b>> : a, b \in Names} ELSE {})
A(o, p, to, abs) == act' = [o |-> o, p |-> p, to |-> to, abs |-> abs]
Init == tree = <<>> /\ act = [o |-> "init"]
Next == \/ \E p \in Ps : Make(p, "file", 0) /\ A("file", p, <<>>, FALSE)
        \/ \E p \in Ps : Remove(p) /\ A("rm", p, <<>>, FALSE)
        \/ \E p \in Ps, abs \in (IF Rich THEN BOOLEAN ELSE {TRUE}), to \in Tos :
              (Rich \/ Len(p) = 1) /\ (abs \/ to # <<>>) /\ Link(p, abs, to) /\ A("link", p, to, abs)
        \/ \E p \in Ps : Create(p, 493, Spot(p).at = "node") /\ A("create", p, <<>>, FALSE)
Spec == Init /\ [][Next]_tree
View == tree
\* a tree: what exists lies in a directory; what is created is what is found
Formed == \A p \in DOMAIN tree : Kind(tree, Front(p)) = "dir"
Found == \A p \in DOMAIN tree : tree[p].k # "link" => KindAt(tree, p) = tree[p].k
\* after creation the path is a directory, as long as it was nothing before
Made == [][\A p \in Ps : (Spot(p).at = "node" /\ tree' # tree /\ act'.o = "create" /\ act'.p = p) => KindAt(tree', p) = "dir"]_tree
\* creating never changes what a path that resolved before resolves to
Keeps == [][act'.o = "create" => \A p \in Ps : KindAt(tree, p) # "none" => KindAt(tree', p) = KindAt(tree, p)]_tree
Few == Cardinality(DOMAIN tree) <= 4
PrintEdge == PrintT("EDGE " \o ToJson([s |-> ToString(View), a |-> act', t |-> ToString(View')]))
PrintInit == (TLCGet("level") = 1) => PrintT("EDGE " \o ToJson([i |-> ToString(View)]))
=============================================================================
