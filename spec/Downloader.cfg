SPECIFICATION Spec
CONSTANTS Mode = "replace"
 Check = TRUE
 Go = TRUE
INVARIANTS WholeOrNothing OncePerRun Reported
CHECK_DEADLOCK FALSE
