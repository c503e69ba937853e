CONSTANT Props = {"C07", "C08", "C09"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
