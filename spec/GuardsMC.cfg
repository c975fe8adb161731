SPECIFICATION MSpec
VIEW View
PROPERTY FinalIsConstant
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
