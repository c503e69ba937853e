CONSTANTS
 N = 3
 Kinds = {"hpp", "link", "rule"}
 Variant = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
