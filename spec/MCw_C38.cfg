SPECIFICATION Spec
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 2
 Names <- NamesOthers
 Args <- ArgsHere
 Seqs = {1}
 Types <- DF
 Odfs <- NoOdf
 Rdfs <- NoRdf
 Noxs <- NoNox
 Nols <- NoNol
 Errnos <- NoErr
 Cis = {FALSE}
 Vs = {TRUE}
 Envs <- SomeEnv
 Vans = {FALSE}
 Restarts = FALSE
INVARIANTS TypeOK StillThere SameDirectory OnlyCleaned Converged Reported
PROPERTIES NoClobber Announced
CHECK_DEADLOCK FALSE
