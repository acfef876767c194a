SPECIFICATION Spec
CONSTANTS
 Alphabet <- CgiAlpha
 MaxLen = 5
 Limits <- NoLimits
INVARIANTS CgiOk
CHECK_DEADLOCK FALSE
