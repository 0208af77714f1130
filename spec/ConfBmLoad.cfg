SPECIFICATION Spec
CONSTANTS
  Lane <- BmlLane
  Allowed <- BmlAllowed
  Expected <- BmlExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
