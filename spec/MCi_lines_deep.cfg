SPECIFICATION Spec
CONSTANTS
 BufLimit = 4
 Alphabet <- Lines3
 MaxLen = 7
INVARIANTS Covers Shape NoSplit LineWise PerChar LinesKept Dots Final

CHECK_DEADLOCK FALSE
