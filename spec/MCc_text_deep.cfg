SPECIFICATION SpecOne
CONSTANTS
 Names = {"default", "a-b"}
 MaxFilters = 2
 MaxSeqs = 2
 Igns = 2
 Styles = {"tight", "loud", "noisy", "lines"}
INVARIANTS RoundTrip NoTokenIsIdle
CHECK_DEADLOCK FALSE
