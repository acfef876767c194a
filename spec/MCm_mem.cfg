SPECIFICATION Spec
CONSTANTS
 Alphabet <- BytesAlpha
 MaxLen = 3
INVARIANTS Fits InName Result Agrees
CHECK_DEADLOCK FALSE
