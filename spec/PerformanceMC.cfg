SPECIFICATION Spec
CONSTANTS MaxNow = 1
          MaxSamples = 1
          MaxNon = 1
          WithTell = FALSE
VIEW View
INVARIANTS Exactly Figured
PROPERTIES Off Quiet
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
