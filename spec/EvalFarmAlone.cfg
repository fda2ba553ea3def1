SPECIFICATION Spec
CONSTANTS Slot = "file"
 Guard = TRUE
 Reader = "master"
INVARIANTS NoStuck
CHECK_DEADLOCK FALSE
