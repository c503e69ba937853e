CONSTANTS
 L = 0
 Kind = "cxx"
 Digits = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
 Letters = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_", "include", "define", "if", "pragma", "P1", "P2", "P3", "P4", "P5", "P6"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
