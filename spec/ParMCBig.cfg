SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Vals = {0, 1}
  MaxCalls = 2
INVARIANTS Pure Own
CHECK_DEADLOCK FALSE
