SPECIFICATION Spec
CONSTANTS
  B = 2
  Starts <- SomeStarts
  InsertCells <- SomeCells
  MaxLen = 5
INVARIANTS ViewIsHistory CacheExact CacheNeverTooSmall GridBehind ErrMeansContradiction Rebuilt
CHECK_DEADLOCK FALSE
