SPECIFICATION Spec
CONSTANTS
  Digits = {0, 1}
  Width = 2
  Many = 4
INVARIANTS OrderTotal SortEnds OnlySorted CopiesApart
CHECK_DEADLOCK FALSE
