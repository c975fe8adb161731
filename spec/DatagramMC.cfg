SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS Read
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
