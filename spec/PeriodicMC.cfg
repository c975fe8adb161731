SPECIFICATION Spec
CONSTANTS Pers = {2, 3}
 MaxNow = 7
VIEW View
INVARIANTS Sound
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
