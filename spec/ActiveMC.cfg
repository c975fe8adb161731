SPECIFICATION Spec
CONSTANTS N = 2
 MaxQ = 2
 MaxNow = 1
VIEW View
INVARIANTS Sound
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
