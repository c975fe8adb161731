SPECIFICATION Spec
CONSTANTS N = 2
 MaxRd = 2
 MaxNow = 2
 Dls = {0, 1}
CONSTRAINT Bound
VIEW View
INVARIANTS Exclusive NoLostWaiter
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
