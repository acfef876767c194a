SPECIFICATION Spec
CONSTANTS
 Alphabet <- SepAlpha
 MaxLen = 8
 Limits <- NoLimits
INVARIANTS WipeupOk
CHECK_DEADLOCK FALSE
