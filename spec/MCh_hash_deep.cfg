SPECIFICATION Spec
CONSTANTS
 Length = 5
 Keys = {1, 2, 5, 6, 10, 11, 3}
 Values = {"a", "b"}
INVARIANTS Refines UsedRight NoDuplicates
PROPERTIES FullOnly
CHECK_DEADLOCK FALSE
