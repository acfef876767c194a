SPECIFICATION Spec
CONSTANTS
 Alphabet <- UtfAlpha
 MaxLen = 4
 Limits <- NoLimits
INVARIANTS UtfOk UtfKeeps
CHECK_DEADLOCK FALSE
