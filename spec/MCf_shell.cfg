SPECIFICATION Spec
CONSTANTS
 Alphabet <- ShellAlpha
 MaxLen = 4
 Limits <- NoLimits
INVARIANTS ShellOk TwiceOk ComposeOk
CHECK_DEADLOCK FALSE
