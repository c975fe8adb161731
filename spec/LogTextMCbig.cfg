SPECIFICATION Spec
CONSTANTS Letters = {126, 51, 58, 40, 67, 79, 77, 69}
 MaxLen = 5
 Sizes = {1, 1000, 1046, 2045, 2046, 2047}
 MaxPieces = 3
VIEW View
INVARIANTS Only Apart Prefix
ACTION_CONSTRAINT Out
CHECK_DEADLOCK FALSE
