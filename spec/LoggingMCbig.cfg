SPECIFICATION Spec
CONSTANTS Mode = "levels"
 LevelsUsed = {0, 1, 2, 3, 4, 5}
 Rich = FALSE
VIEW View
INVARIANTS Attached Monotone Stable Restored Heard
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
