SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  Variant = "none"
  Shapes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
INVARIANTS Whole Reported Once Small
PROPERTY Finishes
CHECK_DEADLOCK FALSE
