SPECIFICATION TSpec
CONSTANTS Vars = {0, 1, 2, 3}
 Empty = Empty
CHECK_DEADLOCK TRUE
