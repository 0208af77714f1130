SPECIFICATION EncSpec
CONSTANTS
  Show = TRUE
INVARIANTS AtEnd Merged Emit
PROPERTIES Progress Grows
CHECK_DEADLOCK FALSE
