SPECIFICATION Spec
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 3
 Names <- NamesCollide
 Args <- ArgsDir
 Seqs = {1, 3}
 Types <- DFL
 Odfs <- NoOdf
 Rdfs <- NoRdf
 Noxs <- NoNox
 Nols <- NoNol
 Errnos <- NoErr
 Cis = {FALSE, TRUE}
 Vs = {TRUE}
 Envs <- NoEnv
 Vans = {FALSE}
 Restarts = FALSE
INVARIANTS TypeOK NothingLost DryInert NamesCleaned SameDirectory SkippedUntouched SpecialUntouched Complete OnceOnly Reported
PROPERTIES NoClobber OnceStep DeadMeansDead Announced RefusalTold
CHECK_DEADLOCK FALSE
