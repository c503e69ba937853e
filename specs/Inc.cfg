SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Emit = FALSE
 Mutant = "none"
INVARIANTS NoStale NothingInVain TimeTells
CHECK_DEADLOCK FALSE
