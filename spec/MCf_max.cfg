SPECIFICATION Spec
CONSTANTS
 Alphabet <- DotAlpha
 MaxLen = 9
 Limits <- SmallLimits
INVARIANTS MaxOk
CHECK_DEADLOCK FALSE
