CONSTANT Max = 7
SPECIFICATION Spec
INVARIANTS Agree Show
CHECK_DEADLOCK FALSE
