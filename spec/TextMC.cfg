SPECIFICATION MSpec
ACTION_CONSTRAINT PrintEdge
INVARIANTS SplitJoin NoDelimLeft TrimOK PadOK
CHECK_DEADLOCK FALSE
