SPECIFICATION Spec
CONSTANTS
 Names = {"default", "b", "c"}
 MaxFilters = 1
 MaxSeqs = 1
 Igns = 1
 Styles = {"lines"}
INVARIANTS Chosen
CHECK_DEADLOCK FALSE
