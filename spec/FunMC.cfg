SPECIFICATION Spec
CONSTANTS Vars = {0, 1, 2}
 Xs = {1, 2}
 Objs = {1, 2, 3, 4}
 MaxD = 1
VIEW AbsView
INVARIANTS Owned SmallInline
PROPERTY Refines
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
