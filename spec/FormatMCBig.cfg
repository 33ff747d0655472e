SPECIFICATION Spec
CONSTANTS
  BW = 1
  BM = 2
  Alphabet <- AlphabetMC
  MaxLen = 14
  MaxJunk = 2
INVARIANTS BlockAgrees LineAgrees PermissiveAgrees
CHECK_DEADLOCK FALSE
