SPECIFICATION Spec
CONSTANTS
 Length = 4
 Keys = {1, 2, 3, 4, 5, 8}
 Values = {"a", "b"}
INVARIANTS Refines UsedRight NoDuplicates
PROPERTIES FullOnly
CHECK_DEADLOCK FALSE
