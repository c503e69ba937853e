CONSTANT Props = {"C20"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
