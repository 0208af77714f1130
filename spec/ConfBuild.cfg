SPECIFICATION Spec
CONSTANTS
  Allowed <- BuildAllowed
  Expected <- BuildExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
