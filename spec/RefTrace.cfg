SPECIFICATION TSpec
CONSTANTS Vars = {0, 1, 2, 3, 4, 5, 6}
 Objs = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANTS NoDangling NoLeak
CHECK_DEADLOCK TRUE
