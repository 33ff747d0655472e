SPECIFICATION Spec
CONSTANTS
  BW = 1
  BM = 2
  Alphabet <- AlphabetMC
  MaxLen = 12
  MaxJunk = 2
INVARIANTS BlockAgrees LineAgrees PermissiveAgrees
CHECK_DEADLOCK FALSE
