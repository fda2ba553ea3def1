SPECIFICATION MSpec
CONSTANT Rule = "upward"
INVARIANTS Parity
CHECK_DEADLOCK FALSE
