SPECIFICATION Spec
CONSTANTS Threads = {0, 1}
 MaxOps = 3
VIEW View
INVARIANTS Exclusion AssertExact
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
