SPECIFICATION Spec
CONSTANT Mode = "laws"
INVARIANT Laws
CHECK_DEADLOCK FALSE
