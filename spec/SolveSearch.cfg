SPECIFICATION Spec
CONSTANTS
  B = 2
  Roots <- MCRoots
  Limits <- MCLimits
  Caps <- MCCaps
INVARIANTS Partition NoConflict Exact Buffer
PROPERTY Terminates
CHECK_DEADLOCK FALSE
