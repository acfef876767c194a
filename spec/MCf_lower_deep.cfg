SPECIFICATION Spec
CONSTANTS
 Alphabet <- CapAlpha
 MaxLen = 5
 Limits <- NoLimits
INVARIANTS LowerOk
CHECK_DEADLOCK FALSE
