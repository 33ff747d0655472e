SPECIFICATION Spec
CONSTANTS
  B = 2
  Solutions <- OneOfEach
  MinClues = 3
  MaxClues = 5
  Anchor <- NoAnchor
  Slack = 0
  Lists <- AllOrders
INVARIANTS NothingLost LocallySound Exhausted Monotone ContradictionMeansNoSolution
PROPERTY Terminates
CHECK_DEADLOCK FALSE
