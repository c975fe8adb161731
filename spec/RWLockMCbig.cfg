SPECIFICATION Spec
CONSTANTS N = 3
 MaxRd = 1
 MaxNow = 1
 Dls = {0, 1}
CONSTRAINT Bound
VIEW View
INVARIANTS Exclusive NoLostWaiter
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
