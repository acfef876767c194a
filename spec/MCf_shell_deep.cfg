SPECIFICATION Spec
CONSTANTS
 Alphabet <- ShellAlpha
 MaxLen = 5
 Limits <- NoLimits
INVARIANTS ShellOk TwiceOk ComposeOk
CHECK_DEADLOCK FALSE
