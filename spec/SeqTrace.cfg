SPECIFICATION TSpec
CONSTANTS Vs = {0, 1, 2, 3, 4}
ALIAS Shown
