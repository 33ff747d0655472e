SPECIFICATION Spec
CONSTANTS
  BW = 3
  BM = 3
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
