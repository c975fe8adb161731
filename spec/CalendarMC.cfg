SPECIFICATION MSpec
CONSTRAINT Bound
INVARIANTS CivilOK Anchors RoundTrip
CHECK_DEADLOCK FALSE
