SPECIFICATION Spec
CONSTANTS
 BufLimit = 4
 Alphabet <- Wides
 MaxLen = 6
INVARIANTS Covers Shape NoSplit LineWise PerChar LinesKept Dots Final

CHECK_DEADLOCK FALSE
