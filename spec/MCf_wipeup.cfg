SPECIFICATION Spec
CONSTANTS
 Alphabet <- SepAlpha
 MaxLen = 6
 Limits <- NoLimits
INVARIANTS WipeupOk
CHECK_DEADLOCK FALSE
