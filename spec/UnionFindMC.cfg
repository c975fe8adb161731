SPECIFICATION MSpec
CONSTANT MaxNodes = 4
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
