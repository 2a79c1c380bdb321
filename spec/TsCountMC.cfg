SPECIFICATION Spec
CONSTANTS Threads = {0, 1, 2}
 MaxOwn = 2
VIEW View
INVARIANTS OneKiller NoLiveRefAtDeath Counted
PROPERTY Dies
CHECK_DEADLOCK FALSE
