SPECIFICATION Spec
CONSTANTS K = 3
          MaxUse = 3
INVARIANTS AtEnd Complete
ACTION_CONSTRAINT PrintEnd
CHECK_DEADLOCK FALSE
