SPECIFICATION FtSpec
CONSTANTS
  Show = TRUE
INVARIANTS Lines LineStart ErrorLine Emit
PROPERTIES Progress Keeps
CHECK_DEADLOCK FALSE
