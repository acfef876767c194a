SPECIFICATION Spec
CONSTANTS
 SeqList <- SeqList_
 MaxEntries = 3
 Names <- NamesBreak
 Args <- ArgsDir
 Seqs = {1}
 Types <- DFL
 Odfs <- NoOdf
 Rdfs <- SomeRdf
 Noxs <- NoNox
 Nols <- NoNol
 Errnos <- NoErr
 Cis = {FALSE}
 Vs = {TRUE}
 Envs <- NoEnv
 Vans = {FALSE}
 Restarts = FALSE
INVARIANTS TypeOK NothingLost DryInert NamesCleaned SameDirectory SkippedUntouched SpecialUntouched Complete ListedDone OnceOnly Reported
PROPERTIES NoClobber OnceStep DeadMeansDead BreakTold Announced
CHECK_DEADLOCK FALSE
