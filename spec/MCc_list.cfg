SPECIFICATION Spec
CONSTANTS
 Names = {"default", "b", "c"}
 MaxFilters = 1
 MaxSeqs = 1
 Igns = 1
 Styles = {"noisy"}
INVARIANTS Marked Chosen
CHECK_DEADLOCK FALSE
