SPECIFICATION TSpec
CONSTANTS N = 256
 Slots = {0, 1, 2, 3}
