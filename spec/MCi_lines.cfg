SPECIFICATION Spec
CONSTANTS
 BufLimit = 4
 Alphabet <- Lines3
 MaxLen = 5
INVARIANTS Covers Shape NoSplit LineWise PerChar LinesKept Dots Final
PROPERTY Finishes
CHECK_DEADLOCK FALSE
