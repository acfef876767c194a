SPECIFICATION Spec
CONSTANT SeqList <- Seqs
INVARIANTS Note
POSTCONDITION Result
CHECK_DEADLOCK FALSE
