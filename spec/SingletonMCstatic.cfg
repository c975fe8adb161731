SPECIFICATION Spec
VIEW View
CONSTANTS N = 3
          MaxNow = 2
          MaxNo = 2
          Static = TRUE
INVARIANT OneInstance
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
