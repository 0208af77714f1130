SPECIFICATION CsSpec
CONSTANTS
  Show = TRUE
INVARIANTS Pieces Emit
CHECK_DEADLOCK FALSE
