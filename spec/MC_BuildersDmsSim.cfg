SPECIFICATION BldSpec
CONSTANTS
  Kind = "dms"
  Cfgs = {0, 1, 2}
  MaxBuilders = 4
  MaxEvents = 14
  Show = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
