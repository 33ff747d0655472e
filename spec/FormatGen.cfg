SPECIFICATION Spec
CONSTANTS
  BW = 3
  BM = 3
CHECK_DEADLOCK FALSE
