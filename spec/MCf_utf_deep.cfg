SPECIFICATION Spec
CONSTANTS
 Alphabet <- UtfAlpha
 MaxLen = 5
 Limits <- NoLimits
INVARIANTS UtfOk UtfKeeps
CHECK_DEADLOCK FALSE
