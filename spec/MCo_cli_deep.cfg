SPECIFICATION Spec
CONSTANT MaxArgs = 3
INVARIANTS Machine FilesInOrder Final Keeps Swap DashDash
CHECK_DEADLOCK FALSE
