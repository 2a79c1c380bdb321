SPECIFICATION Spec
CONSTANTS Keys = {0, 1, 2}
 MaxLen = 7
VIEW View
INVARIANTS Heap TopLeast
PROPERTY Refines
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
