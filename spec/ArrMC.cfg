SPECIFICATION Spec
CONSTANTS Vars = {0, 1}
 Arenas = {0, 1}
 Blocks = {1, 2, 3}
 MaxLen = 2
 Xs = {1, 2}
VIEW AbsView
INVARIANT Memory
PROPERTY Refines
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
