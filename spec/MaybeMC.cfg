SPECIFICATION Spec
CONSTANTS Vars = {0, 1, 2}
 Xs = {1, 2}
VIEW View
INVARIANT FlagIsObject
PROPERTY Refines
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
