SPECIFICATION Spec
CONSTANT W = 7
INVARIANTS Represents Iteration Queries
CHECK_DEADLOCK FALSE
