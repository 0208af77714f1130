SPECIFICATION Spec
CONSTANTS
  Allowed <- RelAllowed
  Expected <- RelExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
