SPECIFICATION Spec
CONSTANTS N = 2
 MaxSc = 2
 MaxRaw = 1
 Fs = {"sm", "close", "isl", "trym", "unm"}
VIEW View
INVARIANTS Exclusive NoLostWaiter Accounted
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
