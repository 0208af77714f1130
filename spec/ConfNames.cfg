SPECIFICATION Spec
CONSTANTS
  Allowed <- NamAllowed
  Expected <- NamExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
