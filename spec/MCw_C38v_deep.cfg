SPECIFICATION Spec
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 3
 Names <- NamesOthers
 Args <- ArgsHere
 Seqs = {1}
 Types <- DF
 Odfs <- NoOdf
 Rdfs <- NoRdf
 Noxs <- NoNox
 Nols <- NoNol
 Errnos <- NoErr
 Cis = {FALSE}
 Vs = {TRUE}
 Envs <- NoEnv
 Vans = {TRUE}
 Restarts = FALSE
INVARIANTS TypeOK StillThere SameDirectory OnlyCleaned Converged
PROPERTIES NoClobber Announced
CHECK_DEADLOCK FALSE
