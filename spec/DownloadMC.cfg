SPECIFICATION MSpec
INVARIANTS NoPartial NotAgain Recovers
CHECK_DEADLOCK FALSE
