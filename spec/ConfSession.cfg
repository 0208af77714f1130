SPECIFICATION Spec
CONSTANTS
  Allowed <- SessAllowed
  Expected <- SessExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
