SPECIFICATION Spec
CONSTANTS N = 2
 MaxCnt = 2
 MaxNow = 2
 Dls = {0, 1}
CONSTRAINT Bound
VIEW View
INVARIANTS Consistent NoLostWaiter
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
