SPECIFICATION Spec
CONSTANTS Sims = 4
 MaxProc = 5
 Restart = FALSE
 Private = TRUE
INVARIANTS SeedsOnly Distinct
CHECK_DEADLOCK FALSE
