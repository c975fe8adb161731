SPECIFICATION Spec
CONSTANTS MaxNow = 1
          MaxSamples = 2
          MaxNon = 1
          WithTell = TRUE
VIEW View
INVARIANTS Exactly Figured
PROPERTIES Off Quiet
CHECK_DEADLOCK FALSE
