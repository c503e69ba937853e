SPECIFICATION Spec
CONSTANT N = 3
CONSTANT MaxW = 2
CONSTANT Outcomes = {"skip", "ok", "fail", "throw"}
CONSTANT Mutant = "none"
INVARIANT OrderInv
INVARIANT ExitInv
INVARIANT CapInv
INVARIANT LogInv
