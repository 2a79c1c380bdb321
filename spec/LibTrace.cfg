SPECIFICATION TSpec
CONSTANTS Vars = {0, 1, 2, 3, 4}
 Libs = {1, 2, 3, 4}
 Needs <- LibNeeds
