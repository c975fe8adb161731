SPECIFICATION MSpec
CONSTANTS MaxLen = 6
 MaxRef = 4
INVARIANTS NormGood FileGood NoRef Verbatim
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
