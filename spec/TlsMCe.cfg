SPECIFICATION Spec
CONSTANTS Threads = {0, 1}
 Vars = {0}
 MaxOps = 2
 MaxRefuse = 1
 MaxLose = 1
 Vals = {1, 2}
VIEW View
INVARIANTS ReadsOwn OneCreator SlotFirst
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
