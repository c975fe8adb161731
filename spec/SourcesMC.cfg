SPECIFICATION MSpec
INVARIANTS Precedence Fails
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
