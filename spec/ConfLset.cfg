SPECIFICATION Spec
CONSTANTS
  Allowed <- LsetAllowed
  Expected <- LsetExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
