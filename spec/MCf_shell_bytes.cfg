SPECIFICATION Spec
CONSTANTS
 Alphabet <- AllBytes
 MaxLen = 2
 Limits <- NoLimits
INVARIANTS ShellOk TwiceOk
CHECK_DEADLOCK FALSE
