SPECIFICATION Spec
CONSTANTS Threads = {0, 1, 2}
 Vars = {0, 1}
 MaxOps = 2
 MaxRefuse = 1
 MaxLose = 1
 Vals = {1}
VIEW View
INVARIANTS ReadsOwn OneCreator SlotFirst
PROPERTY Returns
CHECK_DEADLOCK FALSE
