SPECIFICATION BldSpec
CONSTANTS
  Kind = "bm"
  Cfgs = {0, 1}
  MaxBuilders = 2
  MaxEvents = 4
  Show = TRUE
INVARIANTS SameValue Emit
PROPERTY OnlySet
CHECK_DEADLOCK FALSE
