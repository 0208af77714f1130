SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Configs = {1, 2}
  Calls = {1, 2}
  MaxEncs = 2
  MaxEvents = 9
  Show = FALSE
INVARIANTS TypeOK Pure Balanced NoOther
CHECK_DEADLOCK FALSE
