SPECIFICATION Spec
CONSTANT W = 5
INVARIANTS Represents Iteration Queries
CHECK_DEADLOCK FALSE
