CONSTANTS
 N = 3
 Ordered = TRUE
 Mutant = ""
SPECIFICATION Spec
INVARIANTS Once DependenciesFirst CycleOnlyIfThere NothingMissed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
