SPECIFICATION MCSpec
CONSTANTS Vars = {0, 1, 2, 3}
 Objs = {1, 2}
 MaxMan = 1
VIEW View
INVARIANTS NoDangling NoLeak
PROPERTY DiedOnce
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
