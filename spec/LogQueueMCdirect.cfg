SPECIFICATION Spec
CONSTANTS NThreads = 2
 NOut = 1
 Workers <- W0
 Levels <- L1
 MaxMsg = 2
 Ops <- OpsB
VIEW View
INVARIANTS Ordered Emptied
PROPERTIES Leaves Silent InOrder
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
