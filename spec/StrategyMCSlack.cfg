SPECIFICATION Spec
CONSTANTS
  B = 2
  Solutions <- JustOne
  MinClues = 4
  MaxClues = 4
  Anchor <- Anchor1
  Slack = 1
  Lists <- AllOrders
INVARIANTS NothingLost LocallySound Exhausted Monotone ContradictionMeansNoSolution
PROPERTY Terminates
CHECK_DEADLOCK FALSE
