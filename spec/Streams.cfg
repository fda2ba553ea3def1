SPECIFICATION Spec
CONSTANTS Sims = 4
 MaxProc = 5
 Restart = TRUE
 Private = TRUE
INVARIANTS SeedsOnly Distinct
CHECK_DEADLOCK FALSE
