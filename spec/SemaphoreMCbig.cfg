SPECIFICATION Spec
CONSTANTS N = 4
 C = 0
 MaxCnt = 2
 MaxNow = 2
 Dls = {0, 1}
VIEW View
INVARIANTS NoLostWaiter
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
