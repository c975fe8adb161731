SPECIFICATION Spec
CONSTANTS MaxMade = 3
VIEW View
INVARIANTS Idle Apart
PROPERTIES Stays Harmless
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
