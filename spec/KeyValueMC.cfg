SPECIFICATION MSpec
CONSTANTS MaxLen = 2  Alpha = {47, 97}  Vals = {1, 2}
VIEW View
INVARIANT Inv
PROPERTY LastWins
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
