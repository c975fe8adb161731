SPECIFICATION MSpec
CONSTANT Types = {1, 2, 3, 5, 6, 7, 8}
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
