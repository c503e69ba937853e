CONSTANT Props = {"C11", "C21"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
