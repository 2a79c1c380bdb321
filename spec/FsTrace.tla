--------------------------------- MODULE FsTrace ---------------------------------
EXTENDS TraceBase, FsTree
\* the whole tree as it is on disk: path, kind, permission bits of directories
SameTree(e) == /\ Len(e.tree) = Cardinality(DOMAIN tree')
               /\ \A i \in DOMAIN e.tree : LET x == e.tree[i] IN
                     /\ x.p \in DOMAIN tree' /\ tree'[x.p].k = x.k
                     /\ x.k = "dir" => tree'[x.p].mode = x.mode
\* every query: path, and the three answers
Answers(e) == \A i \in DOMAIN e.ask : LET x == e.ask[i]  k == KindAt(tree', x.p) IN
              k # "unknown" => x.r = <<IF k # "none" THEN 1 ELSE 0, IF k = "file" THEN 1 ELSE 0, IF k = "dir" THEN 1 ELSE 0>>
RECURSIVE BitAnd(_, _)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (a % 2) * (b % 2) + 2 * BitAnd(a \div 2, b \div 2)
Step(e) ==
    CASE e.op \in {"file", "fifo", "sock", "dir"} -> Make(e.p, e.op, e.mode)
      [] e.op = "link" -> Link(e.p, e.abs, e.to)
      [] e.op = "rm" -> Remove(e.p)
      \* the permissions asked for (and the sticky bit), less those the process masks
      [] e.op = "create" -> Create(e.p, BitAnd(e.mode, 1023 - e.umask), e.ok)
      [] e.op = "query" -> UNCHANGED tree
      [] OTHER -> FALSE
TInit == TraceStart /\ tree = <<>>
TNext == \/ More /\ Step(Ev) /\ TRUE = SameTree(Ev) /\ TRUE = Answers(Ev) /\ Advance
         \/ AtEnd /\ UNCHANGED <<tid, l, tree>>
TSpec == TInit /\ [][TNext]_<<tid, l, tree>>
=============================================================================
