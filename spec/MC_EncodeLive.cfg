SPECIFICATION EncSpec
CONSTANTS
  Show = FALSE
INVARIANTS AtEnd Merged
PROPERTIES Progress Grows Terminates
CHECK_DEADLOCK FALSE
