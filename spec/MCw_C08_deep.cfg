SPECIFICATION Spec
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 3
 Names <- NamesCollide
 Args <- ArgsTwo
 Seqs = {1}
 Types <- DF
 Odfs <- SomeOdf
 Rdfs <- NoRdf
 Noxs <- SomeNox
 Nols <- SomeNol
 Errnos <- SomeErr
 Cis = {FALSE}
 Vs = {TRUE}
 Envs <- NoEnv
 Vans = {FALSE}
 Restarts = FALSE
INVARIANTS TypeOK NothingLost DryInert NamesCleaned SameDirectory SkippedUntouched SpecialUntouched Complete OnceOnly Reported
PROPERTIES NoClobber OnceStep DeadMeansDead BreakTold Announced RefusalTold
CHECK_DEADLOCK FALSE
