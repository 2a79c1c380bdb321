SPECIFICATION Spec
CONSTANTS Threads = {0, 1, 2}
 Objs = {1, 2, 3}
 MaxOps = 1
VIEW View
INVARIANTS Exact Safe NoLeak OneLocker
PROPERTY Unlocks
CHECK_DEADLOCK FALSE
