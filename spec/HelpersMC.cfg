SPECIFICATION MSpec
CONSTANTS V = {1, 2}  Dim = {0, 1, 2}  MaxLen = 3
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
