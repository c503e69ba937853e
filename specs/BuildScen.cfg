SPECIFICATION Spec
CONSTANT N = 3
CONSTANT MaxW = 3
CONSTANT Fates = {"k", "f"}
CONSTANT Sample = 0
INVARIANT Show
CHECK_DEADLOCK FALSE
