SPECIFICATION MSpec
CONSTANTS MaxLen = 8
 MaxRef = 7
INVARIANTS NormGood FileGood NoRef Verbatim
CHECK_DEADLOCK FALSE
