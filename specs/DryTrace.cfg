SPECIFICATION TSpec
CONSTANTS
 Props = {"C13", "C16"}
 Mutant = "none"
 MaxLen = 0
 MaxShort = 0
CHECK_DEADLOCK FALSE
