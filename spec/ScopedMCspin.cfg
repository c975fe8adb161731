SPECIFICATION Spec
CONSTANTS N = 2
 MaxSc = 2
 MaxRaw = 1
 Fs = {"ss", "spin", "unspin", "tryspin", "close", "isl", "sm"}
VIEW View
INVARIANTS Exclusive NoLostWaiter Accounted
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
