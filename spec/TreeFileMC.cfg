SPECIFICATION MSpec
CONSTANTS MaxNodes = 4
          Names <- MCNames
VIEW View
INVARIANT RoundTrip
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
