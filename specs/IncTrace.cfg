SPECIFICATION Spec
CONSTANT Props = {"C05", "C06", "C15"}
CHECK_DEADLOCK FALSE
