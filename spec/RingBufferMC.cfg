SPECIFICATION MSpec
CONSTANTS Caps = {0, 1, 2, 3}  Vals = {1, 2}  MaxN = 4
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
