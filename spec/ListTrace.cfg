SPECIFICATION TSpec
CONSTANTS Lists = {1, 2, 3}
 Nodes = {1, 2, 3, 4, 5, 6}
INVARIANT OneListOnly
CHECK_DEADLOCK TRUE
