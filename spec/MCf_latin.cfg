SPECIFICATION Spec
CONSTANTS
 Alphabet <- AllBytes
 MaxLen = 2
 Limits <- NoLimits
INVARIANTS LatinOk
CHECK_DEADLOCK FALSE
