SPECIFICATION MSpec
CONSTANTS MaxNodes = 3
          Flags = TRUE
          Short = FALSE
VIEW View
INVARIANT Inv
PROPERTY Local

CHECK_DEADLOCK FALSE
