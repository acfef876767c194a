SPECIFICATION Spec
CONSTANTS
 Alphabet <- CapAlpha
 MaxLen = 4
 Limits <- NoLimits
INVARIANTS LowerOk
CHECK_DEADLOCK FALSE
