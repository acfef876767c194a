SPECIFICATION SpecFew
CONSTANTS
 Names = {"default", "b", "c"}
 MaxFilters = 1
 MaxSeqs = 2
 Igns = 1
 Styles = {"tight"}
INVARIANTS Layers Exclusive Chosen
CHECK_DEADLOCK FALSE
