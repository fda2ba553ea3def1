SPECIFICATION Spec
CONSTANTS Slot = "file"
 Guard = TRUE
 Reader = "all"
INVARIANTS Right NoStuck Clean
PROPERTY Finish
CHECK_DEADLOCK FALSE
