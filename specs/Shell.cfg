SPECIFICATION Spec
INVARIANT RoundTrip
CONSTANTS
 Mutant = "none"
 MaxLen = 4
 MaxShort = 1
