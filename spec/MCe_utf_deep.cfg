SPECIFICATION Spec
CONSTANTS
 BufLimit = 3
 Alphabet <- Alpha2
 MaxLen = 6
INVARIANTS Pure Quoted Back Marked Cut
CHECK_DEADLOCK FALSE
