SPECIFICATION MSpec
VIEW View
ACTION_CONSTRAINT PrintEdge
PROPERTY Monotone
CHECK_DEADLOCK FALSE
