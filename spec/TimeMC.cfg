SPECIFICATION MSpec
VIEW View
ACTION_CONSTRAINT PrintEdge
INVARIANTS TypeOK LexOrder Laws
CHECK_DEADLOCK FALSE
