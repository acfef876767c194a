SPECIFICATION SpecOne
CONSTANTS
 Names = {"default", "a-b"}
 MaxFilters = 2
 MaxSeqs = 1
 Igns = 1
 Styles = {"tight", "loud", "noisy", "lines"}
INVARIANTS RoundTrip NoTokenIsIdle
CHECK_DEADLOCK FALSE
