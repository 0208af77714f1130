SPECIFICATION Spec
CONSTANTS
  Allowed <- SimpleAllowed
  Expected <- SimpleExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
