SPECIFICATION Spec
INVARIANTS Once OutRight Finished
CHECK_DEADLOCK FALSE
