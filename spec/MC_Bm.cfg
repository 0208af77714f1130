SPECIFICATION MbSpec
CONSTANTS
  Show = TRUE
INVARIANTS Phonemes Bounded AtEnd Emit
PROPERTIES Progress Guesses
CHECK_DEADLOCK FALSE
