SPECIFICATION TSpec
CONSTANT Boxes = {0, 1, 2}
