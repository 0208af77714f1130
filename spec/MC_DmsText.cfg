SPECIFICATION PrSpec
CONSTANTS
  Show = TRUE
INVARIANTS Lines LineStart ErrorLine Rules Sorted Emit
PROPERTIES Progress Keeps
CHECK_DEADLOCK FALSE
