SPECIFICATION Spec
CONSTANTS
 Alphabet <- BytesAlpha
 MaxLen = 4
INVARIANTS Fits InName Result Agrees
CHECK_DEADLOCK FALSE
