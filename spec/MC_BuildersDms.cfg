SPECIFICATION BldSpec
CONSTANTS
  Kind = "dms"
  Cfgs = {0, 1}
  MaxBuilders = 2
  MaxEvents = 6
  Show = TRUE
INVARIANTS SameValue Emit
PROPERTY OnlySet
CHECK_DEADLOCK FALSE
