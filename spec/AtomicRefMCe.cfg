SPECIFICATION Spec
CONSTANTS Threads = {0, 1}
 Objs = {1, 2, 3}
 MaxOps = 2
VIEW View
INVARIANTS Exact Safe NoLeak OneLocker
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
