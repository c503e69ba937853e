CONSTANTS
 N = 9
 In = 3
 Out = 2
 Mutant = ""
SPECIFICATION Spec
INVARIANTS InOrder Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
