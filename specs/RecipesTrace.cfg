CONSTANT Props = {"C18"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
