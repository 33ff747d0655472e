SPECIFICATION Spec
CONSTANTS
  B = 3
  Steps = 18
CHECK_DEADLOCK FALSE
