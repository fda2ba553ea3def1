SPECIFICATION MSpec
INVARIANT Final
CHECK_DEADLOCK FALSE
