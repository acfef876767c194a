SPECIFICATION Spec
CONSTANTS
 Alphabet <- ComposeAlpha
 MaxLen = 4
 Limits <- NoLimits
INVARIANTS ComposeOk
CHECK_DEADLOCK FALSE
