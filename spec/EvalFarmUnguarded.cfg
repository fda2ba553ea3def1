SPECIFICATION Spec
CONSTANTS Slot = "file"
 Guard = FALSE
 Reader = "all"
INVARIANTS Right
CHECK_DEADLOCK FALSE
