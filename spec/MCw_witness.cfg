SPECIFICATION Spec
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 2
 Names <- NamesWit
 Args <- ArgsWit
 Seqs = {1, 2, 3}
 Types <- DFL
 Odfs <- WitOdf
 Rdfs <- NoRdf
 Noxs <- NoNox
 Nols <- NoNol
 Errnos <- SomeErr
 Cis = {FALSE, TRUE}
 Vs = {TRUE}
 Envs <- NoEnv
 Vans = {FALSE}
 Restarts = FALSE
INVARIANTS Witness
POSTCONDITION AllSeen
CHECK_DEADLOCK FALSE
