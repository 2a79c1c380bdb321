SPECIFICATION TSpec
INVARIANT TypeOK
CHECK_DEADLOCK TRUE
CONSTANT Containers = {0, 1, 2, 3}
ALIAS Shown
