SPECIFICATION Spec
CONSTANTS B = 8 S = 2 MaxLen = 27
INVARIANT Standard Sane
VIEW View
CHECK_DEADLOCK FALSE
