SPECIFICATION LsSpec
CONSTANTS
  Show = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
