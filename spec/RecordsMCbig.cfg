SPECIFICATION Spec
CONSTANTS MaxDay = 4
          MaxMsg = 4
          MaxMake = 2
VIEW View
INVARIANTS Kept Each Ordered
PROPERTIES Aside
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
