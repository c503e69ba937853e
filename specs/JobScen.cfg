SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Known Order Last All Stays
CHECK_DEADLOCK FALSE
