CONSTANT Props = {"C25"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
