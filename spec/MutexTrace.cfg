SPECIFICATION TSpec
CONSTANTS Threads = {0, 1, 2, 3}
 Mutexes = {0, 1}
