SPECIFICATION Spec
CONSTANTS Threads = {0, 1, 2}
 MaxOps = 3
VIEW View
INVARIANTS Exclusion AssertExact
PROPERTY Released
CHECK_DEADLOCK FALSE
