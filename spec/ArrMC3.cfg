SPECIFICATION Spec
CONSTANTS Vars = {0, 1, 2}
 Arenas = {0, 1}
 Blocks = {1, 2, 3, 4}
 MaxLen = 2
 Xs = {1, 2}
VIEW AbsView
INVARIANT Memory
PROPERTY Refines
CHECK_DEADLOCK FALSE
