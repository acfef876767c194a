SPECIFICATION Spec
CONSTANTS
 BufLimit = 3
 Alphabet <- Utfs
 MaxLen = 5
INVARIANTS Covers Shape NoSplit LineWise PerChar LinesKept Dots Final

CHECK_DEADLOCK FALSE
