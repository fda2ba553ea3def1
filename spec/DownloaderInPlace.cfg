SPECIFICATION Spec
CONSTANTS Mode = "inplace"
 Check = TRUE
 Go = TRUE
INVARIANTS WholeOrNothing
CHECK_DEADLOCK FALSE
