SPECIFICATION BnSpec
CONSTANTS
  Show = TRUE
INVARIANTS Decreasing Nested AtEnd Emit
PROPERTIES Written
CHECK_DEADLOCK FALSE
