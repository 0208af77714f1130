SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2, 3}
  Configs = {1, 2, 3}
  Calls = {1, 2, 3, 4, 5}
  MaxEncs = 7
  MaxEvents = 60
  Show = TRUE
INVARIANTS TypeOK Pure Emit
CHECK_DEADLOCK FALSE
