SPECIFICATION TSpec
CONSTANTS Vars = {0, 1, 2, 3}
CHECK_DEADLOCK TRUE
