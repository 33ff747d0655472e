SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Vals = {0, 1, 2}
  MaxCalls = 2
INVARIANTS Pure Own
CHECK_DEADLOCK FALSE
