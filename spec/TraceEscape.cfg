SPECIFICATION Spec
CONSTANT BufLimit = 1007
INVARIANTS Note
POSTCONDITION Result
CHECK_DEADLOCK FALSE
