SPECIFICATION Spec
CONSTANTS K = 2
          MaxUse = 2
INVARIANTS AtEnd Complete
ACTION_CONSTRAINT PrintEnd
CHECK_DEADLOCK FALSE
