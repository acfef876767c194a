SPECIFICATION Spec
INVARIANTS Note
POSTCONDITION Result
CHECK_DEADLOCK FALSE
