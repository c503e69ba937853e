SPECIFICATION Spec
CONSTANTS
  Cap = 2
  Buf = 2
  MaxOps = 4
  Design = "good"
INVARIANTS InOrder Complete StatusRight
PROPERTY Ends
CHECK_DEADLOCK FALSE
