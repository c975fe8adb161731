SPECIFICATION Spec
CONSTANTS Base = 18320
 Days = 3
 MaxLines = 2
 MaxOpens = 2
 Olders = {99, 0, 1}
 Flushes = {TRUE, FALSE}
 Dirs = TRUE
VIEW View
INVARIANTS Once Dated
PROPERTIES Kept Cleaned
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
