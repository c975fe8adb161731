SPECIFICATION Spec
CONSTANTS N = 2
 Loop = FALSE
 MaxNow = 1
 Dls = {0, 1, 2}
VIEW View
INVARIANTS Sound
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
