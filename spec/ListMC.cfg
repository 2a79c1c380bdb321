SPECIFICATION Spec
CONSTANTS Lists <- MCLists
 Nodes = {1, 2, 3, 4}
VIEW View
INVARIANT Linked
PROPERTY Refines
ACTION_CONSTRAINT PrintEdge
CONSTRAINT PrintInit
CHECK_DEADLOCK FALSE
