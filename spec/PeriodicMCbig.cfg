SPECIFICATION Spec
CONSTANTS Pers = {2, 3, 5}
 MaxNow = 12
VIEW View
INVARIANTS Sound
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
