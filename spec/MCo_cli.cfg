SPECIFICATION Spec
CONSTANT MaxArgs = 2
INVARIANTS Machine FilesInOrder Final Keeps Swap Spelling DashDash
CHECK_DEADLOCK FALSE
