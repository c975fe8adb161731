SPECIFICATION MSpec
CONSTANTS MaxNodes = 3
          Flags = FALSE
          Short = TRUE
VIEW View
INVARIANT Inv
PROPERTY Local
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
