SPECIFICATION Spec
CONSTANTS NThreads = 2
 NOut = 2
 Workers <- W1
 Levels <- L2
 MaxMsg = 2
 Ops <- OpsC
VIEW View
INVARIANTS Ordered Emptied
PROPERTIES Leaves Silent InOrder
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
