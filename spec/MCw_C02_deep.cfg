SPECIFICATION Spec
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 3
 Names <- NamesCollide
 Args <- ArgsTwo
 Seqs = {1}
 Types <- DF
 Odfs <- NoOdf
 Rdfs <- NoRdf
 Noxs <- NoNox
 Nols <- NoNol
 Errnos <- NoErr
 Cis = {FALSE}
 Vs = {TRUE}
 Envs <- NoEnv
 Vans = {FALSE}
 Restarts = FALSE
INVARIANTS TypeOK NothingLost DryInert NamesCleaned SameDirectory SkippedUntouched SpecialUntouched Complete OnceOnly Reported
PROPERTIES NoClobber OnceStep DeadMeansDead Announced
CHECK_DEADLOCK FALSE
