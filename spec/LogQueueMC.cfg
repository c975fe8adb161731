SPECIFICATION Spec
CONSTANTS NThreads = 2
 NOut = 1
 Workers <- W1
 Levels <- L1
 MaxMsg = 3
 Ops <- OpsA
VIEW View
INVARIANTS Ordered Emptied
PROPERTIES Leaves Silent InOrder
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
