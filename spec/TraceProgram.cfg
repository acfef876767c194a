SPECIFICATION ProgSpec
CONSTANTS
 SeqList <- PlanSeqs
 BufLimit = 1007
INVARIANTS PNote PExplain
POSTCONDITION Result
CHECK_DEADLOCK FALSE
