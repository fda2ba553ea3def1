SPECIFICATION Spec
CONSTANTS Slot = "arrival"
 Guard = TRUE
 Reader = "all"
INVARIANTS Right
CHECK_DEADLOCK FALSE
