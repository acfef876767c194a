SPECIFICATION TSpec
CONSTANT SeqList <- Seqs
INVARIANTS Note Explain NoLoss DryInert
POSTCONDITION Result
CHECK_DEADLOCK FALSE
