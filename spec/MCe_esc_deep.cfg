SPECIFICATION Spec
CONSTANTS
 BufLimit = 3
 Alphabet <- Alpha
 MaxLen = 5
INVARIANTS Pure Quoted Back Marked Cut
CHECK_DEADLOCK FALSE
