SPECIFICATION Spec
CONSTANTS Threads = {0, 1, 2}
 MaxOwn = 2
VIEW View
INVARIANTS OneKiller NoLiveRefAtDeath Counted
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
