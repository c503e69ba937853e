SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
