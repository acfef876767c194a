SPECIFICATION Spec
CONSTANTS
 Names = {"default", "b", "c"}
 MaxFilters = 1
 MaxSeqs = 1
 Igns = 1
 Styles = {"tight"}
INVARIANTS Layers Exclusive
CHECK_DEADLOCK FALSE
