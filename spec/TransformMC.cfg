SPECIFICATION Spec
CONSTANT B = 2
INVARIANTS Valid SameClass Staged OrbitStabiliser Shape
CHECK_DEADLOCK FALSE
POSTCONDITION AllGrids
