SPECIFICATION MSpec
CONSTANTS MaxNodes = 2
          Flags = TRUE
          Short = FALSE
VIEW View
INVARIANT Inv
PROPERTY Local
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
