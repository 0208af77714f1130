SPECIFICATION Spec
CONSTANTS
  Allowed <- DmsTextAllowed
  Expected <- DmsTextExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
