SPECIFICATION Spec
CONSTANTS
  B = 2
  Solutions <- JustOne
  MinClues = 4
  MaxClues = 5
  Anchor <- Anchor1
  Slack = 0
  Lists <- SomeLists
INVARIANTS NothingLost LocallySound Exhausted Monotone ContradictionMeansNoSolution
PROPERTY Terminates
CHECK_DEADLOCK FALSE
