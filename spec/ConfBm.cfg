SPECIFICATION Spec
CONSTANTS
  Lane <- BmLane
  Allowed <- BmAllowed
  Expected <- BmExpected
INVARIANT Conforms
CHECK_DEADLOCK FALSE
