SPECIFICATION Spec
CONSTANTS
  Allowed <- TotAllowed
  Expected <- TotExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
