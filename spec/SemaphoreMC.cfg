SPECIFICATION Spec
CONSTANTS N = 3
 C = 1
 MaxCnt = 2
 MaxNow = 2
 Dls = {0, 1}
VIEW View
INVARIANTS NoLostWaiter
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
