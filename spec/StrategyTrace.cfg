SPECIFICATION Spec
CONSTANT B = 3
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
