SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANT K = 6
