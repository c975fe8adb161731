SPECIFICATION MSpec
ACTION_CONSTRAINT PrintEdge
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
