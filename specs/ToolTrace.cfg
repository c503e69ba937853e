CONSTANT Props = {"C23", "C24"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
