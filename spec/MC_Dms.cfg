SPECIFICATION DmSpec
CONSTANTS
  Show = TRUE
INVARIANTS Branches AtEnd Emit
PROPERTIES Progress Continues
CHECK_DEADLOCK FALSE
