SPECIFICATION Fair
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 2
 Names <- NamesHidden
 Args <- ArgsFile
 Seqs = {1}
 Types <- DFL
 Odfs <- SomeOdf
 Rdfs <- NoRdf
 Noxs <- NoNox
 Nols <- NoNol
 Errnos <- SomeErr
 Cis = {FALSE}
 Vs = {TRUE}
 Envs <- NoEnv
 Vans = {FALSE}
 Restarts = FALSE
INVARIANTS TypeOK
PROPERTIES Ends
CHECK_DEADLOCK FALSE
