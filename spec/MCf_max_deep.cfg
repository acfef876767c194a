SPECIFICATION Spec
CONSTANTS
 Alphabet <- DotAlpha
 MaxLen = 11
 Limits <- SmallLimits
INVARIANTS MaxOk
CHECK_DEADLOCK FALSE
