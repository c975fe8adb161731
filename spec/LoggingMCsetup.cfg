SPECIFICATION Spec
CONSTANTS Mode = "setup"
 LevelsUsed = {0}
 Rich = FALSE
VIEW View
INVARIANTS Attached Monotone Stable Restored Heard
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
