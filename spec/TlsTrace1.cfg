SPECIFICATION TSpec
CONSTANTS Threads = {0, 1, 2, 3}
 Main <- MainT
 NeedKey = FALSE
