SPECIFICATION Spec
CONSTANTS
  B = 2
  Starts <- SomeStarts
  InsertCells <- MoreCells
  MaxLen = 6
INVARIANTS ViewIsHistory CacheExact CacheNeverTooSmall GridBehind ErrMeansContradiction Rebuilt
CHECK_DEADLOCK FALSE
