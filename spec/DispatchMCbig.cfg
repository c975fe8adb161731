SPECIFICATION Spec
CONSTANTS Per = 2
 MaxOps = 2
 MaxNow = 7
VIEW View
INVARIANTS Sound
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
