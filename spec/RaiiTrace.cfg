SPECIFICATION TSpec
CONSTANTS Cells = {0, 1, 2}
 Slots = {0, 1, 2, 3, 4, 5, 6, 7}
 Heads = {0, 1}
