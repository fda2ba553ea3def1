SPECIFICATION Spec
CONSTANTS Mode = "replace"
 Check = FALSE
 Go = TRUE
INVARIANTS WholeOrNothing
CHECK_DEADLOCK FALSE
