SPECIFICATION CmpSpec
CONSTANTS
  Show = TRUE
INVARIANTS SameStruck AtEnd Emit
PROPERTIES Progress Strikes
CHECK_DEADLOCK FALSE
