SPECIFICATION Spec
CONSTANTS N = 2
 MaxQ = 3
 MaxNow = 2
VIEW View
INVARIANTS Sound
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
