SPECIFICATION Spec
CONSTANTS
 Alphabet <- CgiAlpha
 MaxLen = 7
 Limits <- NoLimits
INVARIANTS CgiOk
CHECK_DEADLOCK FALSE
