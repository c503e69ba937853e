CONSTANT Props = {"C12"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
