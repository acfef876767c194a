SPECIFICATION Spec
CONSTANTS
 BufLimit = 5
 Alphabet <- Wides
 MaxLen = 8
INVARIANTS Covers Shape NoSplit LineWise PerChar LinesKept Dots Final

CHECK_DEADLOCK FALSE
