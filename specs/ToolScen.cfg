SPECIFICATION Spec
INVARIANTS Strategy Sound
CHECK_DEADLOCK FALSE
