CONSTANT Props = {"C14"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
