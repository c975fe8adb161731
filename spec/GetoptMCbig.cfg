SPECIFICATION Spec
CONSTANTS L = 4
          NDecl = 3
INVARIANT Sound
PROPERTY Stable
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
