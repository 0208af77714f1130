SPECIFICATION Spec
CONSTANTS
  Allowed <- DmsAllowed
  Expected <- DmsExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
