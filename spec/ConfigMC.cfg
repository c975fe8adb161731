SPECIFICATION Spec
CONSTANTS MaxRegs = 2
INVARIANT Stale
PROPERTIES Local Kept
VIEW View
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
