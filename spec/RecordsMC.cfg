SPECIFICATION Spec
CONSTANTS MaxDay = 2
          MaxMsg = 3
          MaxMake = 2
VIEW View
INVARIANTS Kept Each Ordered
PROPERTIES Aside
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
